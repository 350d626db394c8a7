// File helpers against the contracts of the system calls they use; lists of values (vlist) and word splitting.
//@ entry: p_read props=C23 functions=utils_file_as_buf native=n_read unwind=2 solver=cvc5
//@ entry: p_write props=C23 functions=utils_file_write_buf native=n_write unwind=2
//@ entry: p_copy props=C23 functions=utils_copy_file native=n_copy unwind=2 solver=cvc5
//@ entry: p_rename props=C23,C04 functions=utils_rename_file native=n_rename unwind=2 rename=utils.c:utils_copy_file
//@ entry: n_read mode=native props=C23 functions=utils_file_as_buf nlimit=20
//@ entry: n_write mode=native props=C23 functions=utils_file_write_buf nlimit=20
//@ entry: n_copy mode=native props=C23 functions=utils_copy_file nlimit=20
//@ entry: n_rename mode=native props=C23,C04 functions=utils_rename_file,utils_copy_file nlimit=20
//@ loop: utils.c utils_file_as_buf 0 p_read
//@   __CPROVER_assigns(ret.error, buflen_max, __CPROVER_object_whole(buf), g_errno, g_rpos, g_fault, x_size, x_k)
//@   __CPROVER_loop_invariant(ret.len == 0 && ret.buf == 0 && g_rpos <= g_len && x_size <= g_rpos && x_size <= VF_BIG)
//@   __CPROVER_loop_invariant(g_k >= x_size || x_k == g_data[g_k])
//@   __CPROVER_loop_invariant((ret.error == 0 || ret.error == AK_ERROR_OVERFLOW) && (ret.error || (!g_fault && x_size == g_rpos)))
//@   __CPROVER_loop_invariant(__CPROVER_loop_entry(buflen_max) < 0 ? buflen_max == __CPROVER_loop_entry(buflen_max) : (buflen_max >= 0 && (size_t) buflen_max + x_size == (size_t) __CPROVER_loop_entry(buflen_max)))
//@   __CPROVER_loop_invariant(ret.error == 0 || (g_max >= 0 && g_rpos > (size_t) g_max && x_size == (size_t) g_max))
//@ loop: utils.c utils_file_write_buf 0 p_write
//@   __CPROVER_assigns(w, tow, g_errno, g_fault, g_wpos, g_wk)
//@   __CPROVER_loop_invariant(tow >= 0 && (size_t) tow <= len && g_wpos == len - (size_t) tow && !g_fault)
//@   __CPROVER_loop_invariant(g_k >= g_wpos || g_wk == g_data[g_k])
//@ loop: utils.c utils_copy_file 0 p_copy
//@   __CPROVER_assigns(nr, rc, __CPROVER_object_whole(buf), g_errno, g_rpos, g_fault, g_wpos, g_wk, g_eof, g_err, g_werr)
//@   __CPROVER_loop_invariant(rc == 0 && g_rpos <= g_len && g_wpos == g_rpos && !g_werr && (!g_eof || g_rpos == g_len))
//@   __CPROVER_loop_invariant(g_k >= g_wpos || g_wk == g_data[g_k])
//@ entry: p_vnext props=C16 functions=vlist_iter_next,vlist_iter_init native=n_vlist unwind=2
//@ loop: utils.h vlist_iter_next 0 p_vnext
//@   __CPROVER_assigns(iter->item)
//@   __CPROVER_loop_invariant(__CPROVER_same_object(iter->item, g_v) && OFS(iter->item) <= g_n && OFS(iter->item) >= g_from)
//@   __CPROVER_loop_invariant(g_k < g_from || g_k >= OFS(iter->item) || g_v[g_k] == '\1')
//@ loop: utils.h vlist_iter_next 1 p_vnext
//@   __CPROVER_assigns(p)
//@   __CPROVER_loop_invariant(__CPROVER_same_object(p, g_v) && OFS(p) <= g_n && OFS(p) >= OFS(iter->item))
//@   __CPROVER_loop_invariant((g_k < OFS(iter->item) || g_k >= OFS(p) || g_v[g_k] != '\1') && (OFS(p) > OFS(iter->item) || (*iter->item != '\1' && *iter->item != 0)))
//@ entry: n_vlist mode=native props=C16 functions=vlist_iter_next,vlist_iter_init,ulist_to_vlist nlimit=30 N=4 NT=5
//@ entry: n_split mode=native props=C16 functions=utils_split_values_add N=5 NT=7 nlimit=40
//@ entry: n_lists_long mode=native props=C16 functions=utils_split_values_add,vlist_iter_next,ulist_to_vlist nlimit=60
//@ assume: read(2) returns 0 for a regular file only at its end; errors carry a positive errno; files below 1 GiB; the program's files are not changed meanwhile
#define OFS(p) ((unsigned long) __CPROVER_POINTER_OFFSET(p))
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <stdio.h>
#include <sys/stat.h>
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"

/* ---- the file system, as contracts of the calls used ---- */
static char *g_data;             /* content of the source file / the buffer to write */
static size_t g_len, g_rpos, g_wpos, g_k, g_n, g_from;
static char *g_v, *g_out;        /* g_out: native image of the destination */
static char g_wk;
static ssize_t g_max;
static int g_errno, g_fault, g_open, g_closed, g_flags, g_eof, g_err, g_werr, g_opened_w, g_renamed, g_unlinked, g_copied, g_words;
static int g_open_fails, g_close_fails;
#undef errno
#define errno g_errno
static int fault(const char *nm) { g_errno = nd_range(nm, 1, 4) == 1 ? EINTR : nd_bool("again") ? EAGAIN : EIO; return g_errno; }
static int vf_open(const char *path, int flags) {
  g_flags = flags;
  if (nd_bool("open-fails")) { g_errno = EACCES; g_open_fails = 1; return -1; }
  ++g_open;
  return 7;
}
static int vf_close(int fd) {
  if (fd != 7) return -1; /* unknown descriptor */
  ++g_closed;
  if (nd_bool("close-fails")) { g_errno = EIO; g_close_fails = 1; return -1; }
  return 0;
}
#ifdef VF_PROOF
#define UPTO(nm, n) ((ssize_t) nd_range(nm, 1, (long long) (n)))
#else
#define UPTO(nm, n) ((ssize_t) nd_range(nm, (n) > 3 ? (long long) (n) - 3 : 1, (long long) (n)))
#endif
static int g_faults;
static int inject(void) {
#ifdef VF_PROOF
  return nd_bool("fault");
#else
  return g_faults < 2 && nd_bool("fault") && ++g_faults;
#endif
}
static ssize_t vf_read(int fd, void *b, size_t n) {
  ENSURE("read/open-descriptor", g_open == g_closed + 1);
  if (inject()) { int e = fault("errno"); if (e != EINTR && e != EAGAIN) g_fault = 1; return -1; }
  size_t m = g_len - g_rpos < n ? g_len - g_rpos : n;
  if (m == 0) return 0;
  ssize_t r = UPTO("read", m);
#ifdef VF_CBMC
  ENSURE("read/buffer-valid", __CPROVER_w_ok(b, n));
  __CPROVER_havoc_object(b);
  if (g_k >= g_rpos && g_k < g_rpos + (size_t) r) ASSUME(((char*) b)[g_k - g_rpos] == g_data[g_k]);
#else
  memcpy(b, g_data + g_rpos, r);
#endif
  g_rpos += r;
  return r;
}
static void put(const void *b, size_t r) {
#ifdef VF_CBMC
  ENSURE("write/buffer-valid", r == 0 || __CPROVER_r_ok(b, r));
  if (g_k >= g_wpos && g_k < g_wpos + r) g_wk = ((const char*) b)[g_k - g_wpos];
#else
  memcpy(g_out + g_wpos, b, r);
#endif
  g_wpos += r;
}
static ssize_t vf_write(int fd, const void *b, size_t n) {
  ENSURE("write/open-descriptor", g_open == g_closed + 1);
  if (inject()) { int e = fault("errno"); if (e != EAGAIN) g_fault = 1; return -1; }
  ssize_t r = n ? UPTO("write", n) : 0;
  put(b, (size_t) r);
  return r;
}
#define F_S ((FILE*) 8)
#define F_D ((FILE*) 16)
static int g_sopen, g_dopen;
static FILE* vf_fopen(const char *path, const char *mode) {
  if (nd_bool("open-fails")) { g_errno = EACCES; g_open_fails = 1; return 0; }
  if (mode[0] == 'r') { ++g_sopen; return F_S; }
  ++g_dopen;
  return F_D;
}
static int vf_fclose(FILE *f) {
  if (f == F_S) { --g_sopen; return 0; }
  --g_dopen;
  if (nd_bool("close-fails")) { g_errno = EIO; g_close_fails = 1; return EOF; }
  return 0;
}
static size_t vf_fread(void *b, size_t sz, size_t n, FILE *f) {
  ENSURE("fread/whole-request", sz == 1 && f == F_S);
  size_t m = g_len - g_rpos < n ? g_len - g_rpos : n, r = m;
  if (inject()) { g_err = 1; r = m ? (size_t) (UPTO("fread", m) - 1) : 0; }
  else if (m < n) g_eof = 1;
#ifdef VF_CBMC
  ENSURE("fread/buffer-valid", __CPROVER_w_ok(b, n));
  __CPROVER_havoc_object(b);
  if (g_k >= g_rpos && g_k < g_rpos + r) ASSUME(((char*) b)[g_k - g_rpos] == g_data[g_k]);
#else
  memcpy(b, g_data + g_rpos, r);
#endif
  g_rpos += r;
  return r;
}
static size_t vf_fwrite(const void *b, size_t sz, size_t n, FILE *f) {
  ENSURE("fwrite/whole-request", sz == 1 && f == F_D);
  size_t r = n;
  if (inject()) { g_werr = 1; r = (size_t) (UPTO("fwrite", n) - 1); }
  put(b, r);
  return r;
}
static int vf_feof(FILE *f) { return g_eof; }
static int vf_ferror(FILE *f) { return g_err; }
static int vf_rename(const char *a, const char *b) {
  int o = (int) nd_range("rename", 0, 2);
  if (o == 0) { g_renamed = 1; return 0; }
  g_errno = o == 1 ? EXDEV : EACCES;
  return -1;
}
static int vf_unlink(const char *p) { ++g_unlinked; ENSURE("rename/source-removed-only-after-a-whole-copy", g_copied); return 0; }
static void reset(size_t len) {
  g_len = len;
  g_rpos = g_wpos = g_from = 0;
  g_fault = g_open = g_closed = g_flags = g_eof = g_err = g_werr = g_renamed = g_unlinked = g_copied = g_words = 0;
  g_open_fails = g_close_fails = g_sopen = g_dopen = g_faults = g_errno = 0;
}
#define open(p_, f_, ...) vf_open(p_, f_)
#define close vf_close
#define read vf_read
#define write vf_write
#define fopen vf_fopen
#define fclose vf_fclose
#define fread vf_fread
#define fwrite vf_fwrite
#undef feof
#undef ferror
#define feof vf_feof
#define ferror vf_ferror
#define rename vf_rename
#define unlink vf_unlink
#include "xstr.h"
#ifdef VF_CBMC
/* contracts of the string builder (proved in t_xstr): size and one arbitrary byte */
static struct xstr g_x;
static size_t x_size; static char x_k;
struct xstr* xstr_create_empty(void) { x_size = 0; return &g_x; }
void xstr_cat2(struct xstr *x, const void *b, size_t n) {
  ENSURE("xstr_cat2/argument-readable", x == &g_x && (n == 0 || __CPROVER_r_ok(b, n)));
  if (g_k >= x_size && g_k < x_size + n) x_k = ((const char*) b)[g_k - x_size];
  x_size += n;
}
void xstr_cat(struct xstr *x, const char *s) { ENSURE("xstr_cat/argument-readable", __CPROVER_r_ok(s, 1)); g_words = 1; }
size_t xstr_size(struct xstr *x) { return x_size; }
void xstr_destroy(struct xstr *x) { }
static char g_xbuf;
char* xstr_destroy_keep_ptr(struct xstr *x) { return &g_xbuf; }
#ifdef VF_REN_utils_copy_file
int utils_copy_file(const char *src, const char *dst) { /* contract, proved by p_copy */
  int rc = nd_int("copyrc");
  g_copied = rc == 0;
  return rc;
}
#endif
#else
#include "xstr.c"
#include "ulist.c"
#endif
#include "utils.c"
#undef rename
#undef open
#undef close

#ifdef VF_CBMC
void p_read(void) {
  VF_START();
  size_t n = nd_size("len");
  ASSUME(n <= VF_LIM(VF_BIG, 4));
  reset(n);
  g_data = vf_bytes(n + 1);
  g_k = nd_size("k");
  ASSUME(g_k < n);
  ssize_t max = (ssize_t) nd_ll("max");
  ASSUME(max >= -1);
  g_max = max;
  struct value v = utils_file_as_buf("f", max);
  REACH("read");
  ENSURE("read/complete-or-error", v.error || (g_rpos == n && v.len == n && x_k == g_data[g_k]));
  ENSURE("read/no-invented-error", !v.error || g_open_fails || g_fault || (max >= 0 && n > (size_t) max));
  ENSURE("read/over-limit-reported", max < 0 || n <= (size_t) max || v.error);
  ENSURE("read/prefix-of-file", v.error == EACCES || v.len > n || g_k >= v.len || x_k == g_data[g_k]);
  ENSURE("read/descriptor-closed", g_open == g_closed);
}
void p_write(void) {
  VF_START();
  size_t n = nd_size("len");
  ASSUME(n <= VF_LIM(VF_BIG, 4));
  reset(n);
  g_data = vf_bytes(n + 1);
  g_k = nd_size("k");
  ASSUME(g_k < n);
  bool app = nd_bool("append");
  int rc = utils_file_write_buf("f", g_data, n, app);
  REACH("write");
  ENSURE("write/complete-or-error", rc || (g_wpos == n && g_wk == g_data[g_k]));
  ENSURE("write/error-reported", !(g_open_fails || g_fault || g_close_fails) || rc);
  ENSURE("write/no-invented-error", g_open_fails || g_fault || g_close_fails || !rc);
  ENSURE("write/descriptor-closed", g_open == g_closed);
  ENSURE("write/mode", !!(g_flags & O_APPEND) == app && !!(g_flags & O_TRUNC) == !app && (g_flags & O_CREAT));
}
void p_copy(void) {
  VF_START();
  size_t n = nd_size("len");
  ASSUME(n <= VF_LIM(VF_BIG, 4));
  reset(n);
  g_data = vf_bytes(n + 1);
  g_k = nd_size("k");
  ASSUME(g_k < n);
  int rc = utils_copy_file("a", "b");
  REACH("copy");
  ENSURE("copy/complete-or-error", rc || (g_rpos == n && g_wpos == n && g_wk == g_data[g_k]));
  ENSURE("copy/error-reported", !(g_open_fails || g_werr || g_close_fails) || rc);
  ENSURE("copy/no-invented-error", g_open_fails || g_err || g_werr || g_close_fails || !rc);
  ENSURE("copy/files-closed", g_sopen == 0 && g_dopen == 0);
}
void p_rename(void) {
  VF_START();
  reset(0);
  int rc = utils_rename_file("a", "b");
  REACH("rename");
  ENSURE("rename/done-or-error", (rc == 0) == (g_renamed || g_copied));
  ENSURE("rename/source-removed", rc != 0 || g_renamed || g_unlinked == 1);
}
void p_vnext(void) {
  VF_START();
  size_t n, k = nd_size("k");
  char *s = vf_cstr(4, &n, k);
  g_k = k; g_n = n; g_v = s;
  ASSUME(k < n);
  struct vlist_iter it;
  vlist_iter_init(s, &it);
  ENSURE("vlist/init", it.item == s && it.len == 0);
  size_t at = nd_size("at"), len = nd_size("len");   /* any iterator state inside the list */
  ASSUME(at <= n && len <= n - at);
  it.item = s + at; it.len = len;
  g_from = at + len;
  bool r = vlist_iter_next(&it);
  REACH("vnext");
  ENSURE("vlist/stays-inside", __CPROVER_same_object(it.item, s) && it.item >= s + g_from && OFS(it.item) <= n);
  ENSURE("vlist/end-only-at-end", r || *it.item == 0);
  ENSURE("vlist/only-separators-skipped", k < g_from || s + k >= it.item || s[k] == '\1');
  if (r) {
    ENSURE("vlist/item-inside", OFS(it.item) + it.len <= n && it.len > 0);
    ENSURE("vlist/item-ends-at-separator-or-end", it.item[it.len] == 0 || it.item[it.len] == '\1');
    ENSURE("vlist/no-separator-in-item", s + k < it.item || s + k >= it.item + it.len || s[k] != '\1');
  }
}
#else
static char g_data_[20000], g_out_[20000];
static void fill(size_t n) {
  for (size_t i = 0; i < n; ++i) g_data_[i] = (char) (i * 7 + i / 251);
  g_data = g_data_; g_out = g_out_;
  memset(g_out_, 0x55, sizeof(g_out_));
}
static size_t anylen(void) {
  static const size_t l[] = { 0, 1, 2, 5, 8191, 8192, 8193, 16384, 16389 };
  return l[nd_range("len", 0, 8)];
}
void n_read(void) {
  size_t n = anylen();
  reset(n); fill(n);
  static const ssize_t ms[] = { -1, 0, 1, 5, 8192, 16384, 20000 };
  ssize_t max = ms[nd_range("max", 0, 6)];
  struct value v = utils_file_as_buf("f", max);
  ENSURE("read/complete-or-error", v.error || (v.len == n && memcmp(v.buf, g_data, n) == 0));
  ENSURE("read/no-invented-error", !v.error || g_open_fails || g_fault || (max >= 0 && n > (size_t) max));
  ENSURE("read/over-limit-reported", max < 0 || n <= (size_t) max || v.error);
  ENSURE("read/descriptor-closed", g_open == g_closed);
  free(v.buf);
}
void n_write(void) {
  size_t n = anylen();
  reset(n); fill(n);
  bool app = nd_bool("append");
  int rc = utils_file_write_buf("f", g_data, n, app);
  ENSURE("write/complete-or-error", rc || (g_wpos == n && memcmp(g_out, g_data, n) == 0));
  ENSURE("write/error-reported", !(g_open_fails || g_fault || g_close_fails) || rc);
  ENSURE("write/no-invented-error", g_open_fails || g_fault || g_close_fails || !rc);
  ENSURE("write/descriptor-closed", g_open == g_closed);
  ENSURE("write/mode", !!(g_flags & O_APPEND) == app && !!(g_flags & O_TRUNC) == !app && (g_flags & O_CREAT));
}
void n_copy(void) {
  size_t n = anylen();
  reset(n); fill(n);
  int rc = utils_copy_file("a", "b");
  ENSURE("copy/complete-or-error", rc || (g_wpos == n && memcmp(g_out, g_data, n) == 0));
  ENSURE("copy/error-reported", !(g_open_fails || g_werr || g_close_fails) || rc);
  ENSURE("copy/no-invented-error", g_open_fails || g_err || g_werr || g_close_fails || !rc);
  ENSURE("copy/files-closed", g_sopen == 0 && g_dopen == 0);
}
void n_rename(void) {
  reset(5); fill(5);
  g_copied = 1; /* judged below: the copy is the real one here */
  int rc = utils_rename_file("a", "b");
  int whole = g_wpos == 5 && memcmp(g_out, g_data, 5) == 0;
  ENSURE("rename/done-or-error", rc || g_renamed || (whole && !g_open_fails && !g_close_fails && !g_werr));
  ENSURE("rename/source-removed", rc || g_renamed || g_unlinked == 1);
  ENSURE("rename/source-kept-on-failure", !rc || !g_unlinked);
}
void n_vlist(void) {
  static const char *it[] = { "a", "bc", "", "0" };
  int n = nd_range("n", 0, VF_N);
  struct ulist l; ulist_init(&l, 1, sizeof(char*));
  const char *w[8];
  for (int i = 0; i < n; ++i) { w[i] = it[nd_range("item", 0, 3)]; ulist_push(&l, &w[i]); }
  char *v = ulist_to_vlist(&l);
  char want[64] = { 0 };
  for (int i = 0; i < n; ++i) { strcat(want, "\1"); strcat(want, w[i]); }
  ENSURE("vlist/text", strcmp(v, want) == 0);
  ENSURE("vlist/is-a-list", is_vlist(v) == (n > 0));
  struct vlist_iter i;
  vlist_iter_init(v, &i);
  for (int j = 0; j < n; ++j) {
    if (!*w[j]) continue; /* empty items take no part */
    ENSURE("vlist/has-item", vlist_iter_next(&i));
    ENSURE("vlist/item", i.len == strlen(w[j]) && strncmp(i.item, w[j], i.len) == 0);
  }
  ENSURE("vlist/end", !vlist_iter_next(&i));
  ulist_destroy_keep(&l);
  free(v);
}
/* words and lists of any length and number */
void n_lists_long(void) {
  static const int sizes[] = { 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 70000 };
  int len = sizes[nd_range("length", 0, 19)], num = sizes[nd_range("number", 0, 19)], quote = nd_range("quote", 0, 3);
  if ((long) len * num > 3000000) return;
  struct ulist l; ulist_init(&l, 1, sizeof(char*));
  char *text = malloc((size_t) (len * 2 + 4) * num + 1), *t = text, *words = malloc((size_t) (len + 1) * num), *w = words;
  for (int i = 0; i < num; ++i) {
    char *b = w;
    if (i) *t++ = i % 3 ? ' ' : '\t';
    char q = quote == 1 ? '\'' : quote == 2 ? '"' : 0;
    if (q) *t++ = q;
    for (int j = 0; j < len; ++j) { char c = q && j % 5 == 3 ? ' ' : 'a' + (i + j) % 26; if (quote == 3 && j % 7 == 0) { *t++ = '\\'; c = ' '; } *w++ = *t++ = c; }
    if (q) *t++ = q;
    *w++ = 0;
    ulist_push(&l, &b);
  }
  *t = 0;
  struct xstr *x = xstr_create_empty();
  char *e = strdup(text);
  utils_split_values_add(e, x);
  char *v = ulist_to_vlist(&l);
  ENSURE("split/long-words", xstr_size(x) == strlen(v) && strcmp(xstr_ptr(x), v) == 0);
  struct vlist_iter it; vlist_iter_init(v, &it);
  w = words;
  for (int i = 0; i < num; ++i, w += len + 1) ENSURE("vlist/long-item", vlist_iter_next(&it) && it.len == len && memcmp(it.item, w, len) == 0);
  ENSURE("vlist/long-end", !vlist_iter_next(&it));
  xstr_destroy(x); free(e); free(v); free(text); free(words); ulist_destroy_keep(&l);
}
void n_split(void) { /* shell-like words: quotes group, a backslash takes the next byte */
  static const char al[] = { 'a', ' ', '\'', '"', '\\', '\t' };
  char s[16], want[64] = { 0 };
  int n = nd_range("len", 0, VF_N);
  for (int i = 0; i < n; ++i) s[i] = al[nd_range("ch", 0, 5)];
  s[n] = 0;
  char word[16]; int wl = 0, in = 0; char q = 0;
  for (int i = 0; ; ++i) {
    char c = s[i];
    if (c == 0 || (!q && (c == ' ' || c == '\t'))) {
      if (in) { word[wl] = 0; strcat(want, "\1"); strcat(want, word); }
      wl = in = 0;
      if (!c) break;
      continue;
    }
    in = 1;
    if (c == '\\') { if (s[i + 1]) word[wl++] = s[++i]; }
    else if (q && c == q) q = 0;
    else if (!q && (c == '\'' || c == '"')) q = c;
    else word[wl++] = c;
  }
  struct xstr *x = xstr_create_empty();
  xstr_cat(x, "pre");
  char *e = strdup(s); /* exact size: reads past the end are seen */
  utils_split_values_add(e, x);
  ENSURE("split/words", strncmp(xstr_ptr(x), "pre", 3) == 0 && strcmp(xstr_ptr(x) + 3, want) == 0);
  free(e);
  xstr_clear(x);
  utils_split_values_add("\1x y\1'z", x);
  ENSURE("split/list-is-added-as-it-is", strcmp(xstr_ptr(x), "\1x y\1'z") == 0);
  xstr_destroy(x);
}
#endif
