// Hash map: histories over the public operations against an abstract finite map; unbounded buckets for find/add/remove.
//@ entry: h_hist mode=native props=C21 functions=map_put,map_remove,map_get,map_count,map_clear,_map_entry_add,_map_entry_remove,_map_entry_find N=3 NT=4
//@ entry: h_grow mode=native props=C21 functions=map_put,map_remove,_map_rehash,map_iter_init,map_iter_next cost=50
//@ entry: h_int mode=native props=C21 functions=map_create_u32,map_create_u64,map_put_u32,map_put_u64,map_get_u32,map_get_u64,map_remove_u32,map_remove_u64
//@ entry: h_str mode=native props=C21 functions=map_create_str,map_put_str,map_get,map_remove,map_destroy
//@ entry: p_get props=C21 functions=_map_entry_find native=h_hist unwind=2 fpr=_map_entry_find.function_pointer_call.1/cp
//@ loop: map.c _map_entry_find 0
//@   __CPROVER_assigns(entry)
//@   __CPROVER_loop_invariant(__CPROVER_same_object(entry, bucket->entries) && OFS(entry) <= (size_t) bucket->used * 24 && OFS(entry) % 24 == 0)
//@   __CPROVER_loop_invariant(OFS(entry) <= g_w * 24 || !g_wmatch)
//@ entry: p_remove props=C21 functions=_map_entry_remove native=h_shrink unwind=4 rename=map.c:_map_rehash fpr=_map_entry_remove.function_pointer_call.1/fp
//@ entry: p_put props=C21 functions=map_put,map_put_u32 native=h_hist unwind=4 rename=map.c:_map_rehash,map.c:_map_entry_add fpr=map_put.function_pointer_call.1/hp,map_put.function_pointer_call.2/fp
//@ entry: p_next props=C21 functions=map_iter_next,map_iter_init native=h_grow unwind=13
//@ loop: map.c map_iter_next 0 p_next
//@   __CPROVER_assigns(iter->bucket, bucket)
//@   __CPROVER_loop_invariant(iter->bucket > g_b0 && iter->bucket <= g_nb && (iter->bucket <= g_wb || g_wb <= g_b0 || !g_wused))
//@ entry: h_shrink mode=native props=C21 functions=_map_entry_add,_map_entry_remove,_map_rehash,map_put,map_get,map_remove
//@ assume: p_next: the entries and buckets other than the arbitrary witness are equal to each other (their contents do not steer the code)
//@ assume: malloc/realloc never fail; a bucket holds at most 4096 entries (proofs)
#define OFS(p) ((unsigned long) __CPROVER_POINTER_OFFSET(p))
static unsigned long g_w;
static void *g_wp;
static _Bool g_wmatch;
static unsigned long g_wb, g_nb, g_b0; static unsigned g_wused;
static unsigned long g_r0;
#define VF_OWN_REALLOC
#ifdef VF_PROOF
#define VF_OWN_MEMCPY
#endif
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#if defined(VF_PROOF)
int strcmp(const char *a, const char *b) { return nondet_int(); }
#endif
#ifdef VF_PROOF
static void *vf_realloc_e(void *p, size_t n);
static void *vf_rz;
#define realloc(p, n) vf_realloc_e(p, n)
#endif
#include "map.h"
#include <stdint.h>
#ifdef VF_REN__map_entry_add
struct _map_entry;
struct _map_entry* _map_entry_add(struct map *hm, void *key, uint32_t hash);
#endif
#ifdef VF_REN__map_rehash
void _map_rehash(struct map *hm, uint32_t n);
#endif
#include "map.c"

static uint32_t g_h[4];
static int g_freed[8];
static uint32_t hf(const void *k) { return g_h[(uintptr_t) k & 3]; }
static int cf(const void *a, const void *b) { return a == b ? 0 : a < b ? -1 : 1; }
static void ff(void *k, void *v) { if (v) ++g_freed[((uintptr_t) v) & 7]; }

void h_hist(void) {
  for (int i = 0; i < 4; ++i) { g_h[i] = nd_range("hash", 0, 1) * 64; g_freed[i] = g_freed[i + 4] = 0; }
  struct map *m = map_create(cf, hf, ff);
  uintptr_t val[4] = { 0 };
  int live[8] = { 0 }, dead[8] = { 0 };
  unsigned cnt = 0;
  /* three keys are there from the start */
  for (unsigned i = 0; i < 3; ++i) { map_put(m, (void*) (uintptr_t) i, (void*) (uintptr_t) (i + 1)); val[i] = i + 1; ++cnt; }
  for (unsigned s = 0; s < VF_N; ++s) {
    unsigned op = nd_range("op", 0, 1), k = nd_range("key", 0, 3);
    uintptr_t v = 4 + s;
    if (op == 0) {
      if (!val[k]) ++cnt; else ++dead[val[k]];
      map_put(m, (void*) (uintptr_t) k, (void*) v);
      val[k] = v;
    } else if (op == 1) {
      int r = map_remove(m, (void*) (uintptr_t) k);
      ENSURE("remove/reports-presence", (r != 0) == (val[k] != 0));
      if (val[k]) { --cnt; ++dead[val[k]]; }
      val[k] = 0;
    }
    for (int q = 0; q < 4; ++q) ENSURE("get/last-value-put", map_get(m, (void*) (uintptr_t) q) == (void*) val[q]);
    ENSURE("count/live-keys", map_count(m) == cnt);
  }
  for (int w = 1; w < 8; ++w) ENSURE("free/each-dropped-value-once", g_freed[w] == dead[w]);
  if (nd_bool("clear")) {
    for (unsigned i = 0; i < 4; ++i) if (val[i]) ++dead[val[i]];
    map_clear(m);
    REACH("clear");
    for (int w = 0; w < 4; ++w) ENSURE("clear/empty", map_count(m) == 0 && map_get(m, (void*) (uintptr_t) w) == 0);
    for (int w = 1; w < 8; ++w) ENSURE("clear/frees-all-once", g_freed[w] == dead[w]);
    map_put(m, (void*) 2, (void*) 5);
    ENSURE("clear/usable", map_get(m, (void*) 2) == (void*) 5 && map_count(m) == 1);
  }
  REACH("end");
}

static unsigned g_mode;
static uint32_t hg(const void *k) { return g_mode ? ((uintptr_t) k & 1 ? (uintptr_t) k * 64 : (uintptr_t) k) : (uint32_t) (uintptr_t) k * 2654435761u; }
void h_grow(void) {
  g_mode = nd_bool("mode");
  struct map *m = map_create(cf, hg, 0);
  for (uintptr_t i = 0; i < 65; ++i) map_put(m, (void*) i, (void*) (i + 100));
  uintptr_t q = nd_range("q", 0, 69);
  ENSURE("grow/count", map_count(m) == 65);
  ENSURE("grow/entries-kept", map_get(m, (void*) q) == (q < 65 ? (void*) (q + 100) : 0));
  REACH("grown");
  unsigned seen = 0, total = 0;
  struct map_iter it;
  map_iter_init(m, &it);
  while (map_iter_next(&it)) { ++total; if ((uintptr_t) it.key == q) ++seen; ENSURE("iter/pairs", (uintptr_t) it.val == (uintptr_t) it.key + 100); }
  ENSURE("iter/each-once", total == 65 && seen == (q < 65));
  for (uintptr_t i = 10; i < 14; ++i) map_remove(m, (void*) i);
  ENSURE("shrink/count", map_count(m) == 61);
  ENSURE("shrink/entries-kept", map_get(m, (void*) q) == (q < 65 && (q < 10 || q >= 14) ? (void*) (q + 100) : 0));
}

void h_int(void) {
  static const uint64_t vals[] = { 0, 1, 64, 0x7fffffff, 0x80000000u, 0xffffffffu, 1ull << 32, 1ull << 63, ~0ull };
  uint64_t a = vals[nd_range("a", 0, 8)], b = vals[nd_range("b", 0, 8)];
  if (nd_bool("64")) {
    struct map *m = map_create_u64(0);
    map_put_u64(m, a, (void*) 1);
    map_put_u64(m, b, (void*) 2);
    REACH("u64");
    ENSURE("u64/get", map_get_u64(m, a) == (a == b ? (void*) 2 : (void*) 1) && map_get_u64(m, b) == (void*) 2);
    ENSURE("u64/remove", map_remove_u64(m, a) && map_get_u64(m, a) == 0 && map_get_u64(m, b) == (a == b ? 0 : (void*) 2));
  } else {
    uint32_t x = a, y = b;
    struct map *m = map_create_u32(0);
    map_put_u32(m, x, (void*) 1);
    map_put_u32(m, y, (void*) 2);
    REACH("u32");
    ENSURE("u32/get", map_get_u32(m, x) == (x == y ? (void*) 2 : (void*) 1) && map_get_u32(m, y) == (void*) 2);
    ENSURE("u32/remove", map_remove_u32(m, x) && map_get_u32(m, x) == 0 && map_get_u32(m, y) == (x == y ? 0 : (void*) 2));
  }
}

void h_str(void) {
  char a[3], b[3];
  for (int i = 0; i < 2; ++i) { a[i] = "\0ab\xff"[nd_range("a", 0, 3)]; b[i] = "\0ab\xff"[nd_range("b", 0, 3)]; }
  a[2] = b[2] = 0;
  int eq = strcmp(a, b) == 0;
  struct map *m = map_create_str(map_k_free);
  map_put_str(m, a, (void*) 1);
  map_put_str(m, b, (void*) 2);
  REACH("str");
  ENSURE("str/get", map_get(m, a) == (eq ? (void*) 2 : (void*) 1) && map_get(m, b) == (void*) 2 && map_count(m) == (eq ? 1 : 2));
  char c[3] = { a[0], a[1], 0 };
  a[0] = 'x'; /* the map keeps its own copy of the key */
  ENSURE("str/own-copy", map_get(m, c) == (eq ? (void*) 2 : (void*) 1));
  ENSURE("str/remove", map_remove(m, c) && map_get(m, c) == 0 && map_get(m, b) == (eq ? 0 : (void*) 2));
  map_destroy(m);
}


/* one bucket that grows and shrinks by many colliding keys, in every order of removal starts */
void h_shrink(void) {
  for (int i = 0; i < 4; ++i) g_h[i] = 5;
  unsigned n = nd_range("n", 1, 42), m = nd_range("removed", 0, n), from = nd_range("from", 0, 2), mode = nd_range("hash", 0, 1);
  g_mode = 1;
  struct map *mp = map_create(cf, mode ? hg : hf, 0);
  for (uintptr_t i = 0; i < n; ++i) map_put(mp, (void*) (i * 4), (void*) (i + 100));
  unsigned char gone[64] = { 0 };
  for (unsigned r = 0; r < m; ++r) {
    uintptr_t i = from == 0 ? r : from == 1 ? n - 1 - r : (r * 7 + 3) % n;
    if (gone[i]) continue;
    gone[i] = 1;
    ENSURE("shrink/remove", map_remove(mp, (void*) (i * 4)));
    void *junk[3]; for (int q = 0; q < 3; ++q) { junk[q] = malloc(96 * (q + 1)); memset(junk[q], 0x55, 96 * (q + 1)); }
    for (int q = 0; q < 3; ++q) free(junk[q]);
  }
  unsigned live = 0;
  for (uintptr_t i = 0; i < n; ++i) {
    ENSURE("shrink/rest-kept", map_get(mp, (void*) (i * 4)) == (gone[i] ? 0 : (void*) (i + 100)));
    live += !gone[i];
  }
  ENSURE("shrink/count", map_count(mp) == live);
  for (uintptr_t i = 0; i < n; ++i) map_put(mp, (void*) (i * 4), (void*) (i + 200));
  for (uintptr_t i = 0; i < n; ++i) ENSURE("regrow/entries", map_get(mp, (void*) (i * 4)) == (void*) (i + 200));
  struct map_iter it; unsigned total = 0;
  map_iter_init(mp, &it);
  while (map_iter_next(&it)) { ++total; ENSURE("iter/pairs", (uintptr_t) it.val == (uintptr_t) it.key / 4 + 200); }
  ENSURE("iter/each", total == n);
  map_destroy(mp);
}

#ifdef VF_PROOF
/* --- one bucket of arbitrary length, all other buckets arbitrary --- */
#define MAXU (1u << 12)
static struct map *pm; static struct _map_bucket *pb; static void *pkey; static uint32_t phash;
static unsigned g_cap; static int g_frees, g_rehash; static void *g_fk, *g_fv;
static uint32_t hp(const void *k) { return phash; }
static int cp(const void *a, const void *b) { int r = nondet_int(); ASSUME((r == 0) == ((uintptr_t) a == (uintptr_t) b)); return r; }
static void fp(void *k, void *v) { ++g_frees; g_fk = k; g_fv = v; }
#define MATCH(e) ((e).hash == phash && (uintptr_t) (e).key == (uintptr_t) pkey)
static _Bool g_one; static struct _map_bucket g_bucket;
static void mkmap(void) {
  g_frees = g_rehash = 0; g_fk = g_fv = 0;
  pm = malloc(sizeof(*pm));
  unsigned mask = nd_uint("mask");
  ASSUME(mask < (1u << 20) && (mask & (mask + 1)) == 0);
  if (g_one) ASSUME(mask == 0);
  pm->buckets_mask = mask;
  if (g_one) pm->buckets = &g_bucket;
  else pm->buckets = malloc(((size_t) mask + 1) * sizeof(*pm->buckets));
  phash = nd_uint("hash");
  pkey = (void*) (uintptr_t) nd_size("key");
  pb = g_one ? &g_bucket : pm->buckets + (phash & mask);
  pb->used = nd_uint("used");
  pb->total = nd_uint("total");
  ASSUME(pb->used <= pb->total && pb->total <= MAXU);
  pb->entries = malloc(sizeof(struct _map_entry) * pb->total);
  g_cap = pb->total;
  pm->count = nd_uint("count");
  ASSUME(pm->count >= pb->used && pm->count < (1u << 30));
  pm->cmp_fn = cp;
  pm->hash_key_fn = hp;
  pm->kv_free_fn = fp;
  pm->int_key_as_pointer_value = nd_bool("intkey");
}
/* keys are distinct: instantiated for a pair of positions */
#define DISTINCT(i, j) ASSUME((i) == (j) || (i) >= pb->used || (j) >= pb->used || !(MATCH(pb->entries[i]) && MATCH(pb->entries[j])))

void p_get(void) {
  VF_START(); g_one = 0;
  mkmap();
  unsigned w = nd_uint("w"), r0 = nd_uint("r0");
  ASSUME(w < MAXU && r0 < MAXU);
  g_w = w; g_wmatch = w < pb->used && MATCH(pb->entries[w]);
  g_r0 = r0;
  DISTINCT(w, r0);
  struct _map_entry *e = _map_entry_find(pm, pkey, phash);
  REACH("find");
  ENSURE("find/absent-only-if-absent", e || !g_wmatch);
  ENSURE("find/returns-a-matching-entry", !e || (MATCH(*e) && e >= pb->entries && e < pb->entries + pb->used));
  ENSURE("find/the-matching-entry", !(g_wmatch && r0 < pb->used && e == pb->entries + r0) || r0 == w);
}

/* realloc of an entry array: the entries at the two witness positions are kept, the rest is arbitrary */
static void *vf_realloc_e(void *p, size_t n) {
  unsigned cnt = nd_uint("realloc");
  ENSURE("bucket/array-of-whole-entries", n % sizeof(struct _map_entry) == 0 && n / sizeof(struct _map_entry) <= 2 * MAXU);
  ASSUME(cnt <= 2 * MAXU && (size_t) cnt * sizeof(struct _map_entry) == n);
  struct _map_entry *q = malloc(sizeof(struct _map_entry) * cnt), *o = p;
  if (o) {
    if (g_w < g_cap && g_w < cnt) q[g_w] = o[g_w];
    if (g_r0 != g_w && g_r0 < g_cap && g_r0 < cnt) q[g_r0] = o[g_r0];
    ENSURE("bucket/array-reallocated", o == pb->entries);
  }
  g_cap = cnt;
  return q;
}
void* memcpy(void *d, const void *s, size_t n) {
  if (n == sizeof(struct _map_entry)) *(struct _map_entry*) d = *(const struct _map_entry*) s;
  else __CPROVER_havoc_slice(d, n);
  return d;
}
#define SAME(a, b) ((a).key == (b).key && (a).val == (b).val && (a).hash == (b).hash)
#define ROOMY(b) ((b)->used <= (b)->total && (b)->total <= g_cap)

#ifdef VF_REN__map_rehash
void _map_rehash(struct map *hm, uint32_t n) {
  ++g_rehash;
  ENSURE("rehash/to-a-power-of-two", n && (n & (n - 1)) == 0);
  extern void at_rehash(void);
  at_rehash();
}
static int g_put; static struct _map_entry pent;
void *pval;
void at_rehash(void) { if (g_put) ENSURE("put/entry-complete-before-the-table-grows", pent.key == pkey && pent.val == pval); }
void p_remove(void) {
  VF_START(); g_one = 1;
  g_put = 0;
  mkmap();
  unsigned w = nd_uint("w"), r = nd_uint("r"), u = pb->used, c = pm->count;
  ASSUME(w < MAXU && r < u && w != r);
  g_w = w; g_r0 = r;
  struct _map_entry old = { 0 }, gone = pb->entries[r];
  if (w < u) old = pb->entries[w];
  _map_entry_remove(pm, pb, pb->entries + r);
  REACH("remove");
  ENSURE("remove/array-has-room", ROOMY(pb));
  ENSURE("remove/counted", pb->used == u - 1 && pm->count == c - 1);
  ENSURE("remove/other-entries-kept", !(w < u) || (w < u - 1 ? SAME(pb->entries[w], old) : SAME(pb->entries[r], old)));
  ENSURE("remove/frees-key-and-value-once", g_frees == 1 && g_fv == gone.val && g_fk == (pm->int_key_as_pointer_value ? 0 : gone.key));
}
#ifdef VF_REN__map_entry_add
struct _map_entry* _map_entry_add(struct map *hm, void *key, uint32_t hash) {
  ENSURE("put/key-and-its-hash", hm == pm && key == pkey && hash == phash);
  return &pent;
}
void p_put(void) {
  VF_START(); g_one = 0;
  g_put = 1;
  mkmap();
  pval = (void*) (uintptr_t) nd_size("val");
  void *ok = pent.key = (void*) (uintptr_t) nd_size("oldkey"), *ov = pent.val = (void*) (uintptr_t) nd_size("oldval");
  map_put(pm, pkey, pval);
  REACH("put");
  ENSURE("put/entry-holds-the-value", pent.key == pkey && pent.val == pval);
  ENSURE("put/old-pair-freed-once", g_frees == 1 && g_fv == ov && g_fk == (pm->int_key_as_pointer_value ? 0 : ok));
}
#endif
#endif
void p_next(void) {
  VF_START();
  struct map m; struct _map_bucket ob, wbk; struct map_iter it;
  unsigned mask = nd_uint("mask"), uo = nd_uint("uo"), uw = nd_uint("uw");
  ASSUME(mask < (1u << 20) && uw <= MAXU && uo <= MAXU);
  g_nb = mask + 1ul; g_wb = nd_range("wb", 0, mask); g_wused = uw;
  struct _map_entry *EO = malloc(sizeof(*EO) * uo), *EW = malloc(sizeof(*EO) * uw);
  ob.entries = EO; ob.used = ob.total = uo;
  wbk.entries = EW; wbk.used = wbk.total = uw;
  m.buckets = malloc(g_nb * sizeof(ob));
  __CPROVER_array_set(m.buckets, ob);
  m.buckets[g_wb] = wbk;
  m.buckets_mask = mask;
  map_iter_init(&m, &it);
  _Bool start = nd_bool("start");
  if (!start) {
    it.bucket = nd_range("b", 0, mask); it.entry = nd_range("e", 0, MAXU);
    ASSUME((unsigned) it.entry < m.buckets[it.bucket].used);
  }
  unsigned b = it.bucket; int e = it.entry; g_b0 = b;
  int r = map_iter_next(&it);
  REACH("next");
  if (start) ENSURE("next/starts-at-the-first", it.bucket > 0 || !r || it.entry == 0);
  if ((unsigned) (e + 1) < m.buckets[b].used) ENSURE("next/following-entry-of-the-bucket", r && it.bucket == b && it.entry == e + 1);
  else if (r) {
    ENSURE("next/first-entry-of-a-later-bucket", it.bucket > b && it.bucket < g_nb && it.entry == 0 && m.buckets[it.bucket].used > 0);
    ENSURE("next/no-entries-passed-over", !(b < g_wb && g_wb < it.bucket) || uw == 0);
  } else ENSURE("next/ends-only-behind-the-last", !(b < g_wb) || uw == 0);
  if (r) ENSURE("next/pair-at-the-position", it.key == m.buckets[it.bucket].entries[it.entry].key && it.val == m.buckets[it.bucket].entries[it.entry].val);
}
#endif
