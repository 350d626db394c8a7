From aa9b97e002015b5758fb82d9e004ec06800573b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 01/59] fix: ulist_clone copies the elements from the list's
 start element

The offset was counted in bytes, so cloning a list after a shift/unshift
yielded garbage elements.
---
 ulist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ulist.c b/ulist.c
index 474a249..e668d3c 100644
--- a/ulist.c
+++ b/ulist.c
@@ -185,7 +185,7 @@ struct ulist* ulist_clone(const struct ulist *list) {
   struct ulist *nlist = xmalloc(sizeof(*nlist));
   unsigned anum = list->num > _ALLOC_UNIT ? list->num : _ALLOC_UNIT;
   nlist->array = xmalloc(anum * list->usize);
-  memcpy(nlist->array, list->array + list->start, list->num * list->usize);
+  memcpy(nlist->array, list->array + (size_t) list->start * list->usize, (size_t) list->num * list->usize);
   nlist->usize = list->usize;
   nlist->num = list->num;
   nlist->anum = anum;
-- 
2.43.0


From 2edb6ab8c34291818f75b058d948a09d4473c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 02/59] fix: ulist_remove_by returns the element index as
 ulist_find does

It returned the position inside of the internal buffer, which differs from
the element index when the list has free room at its start.
---
 ulist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ulist.c b/ulist.c
index e668d3c..e379804 100644
--- a/ulist.c
+++ b/ulist.c
@@ -207,7 +207,8 @@ int ulist_remove_by(struct ulist *list, const void *data) {
   for (unsigned i = list->start; i < list->start + list->num; ++i) {
     void *ptr = list->array + i * list->usize;
     if (memcmp(data, ptr, list->usize) == 0) {
-      ulist_remove(list, i - list->start);
+      i -= list->start;
+      ulist_remove(list, i);
       return i;
     }
   }
-- 
2.43.0


From 623e1a6c59d859df0f086e7e9b878a468d761ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 03/59] fix: map with u64 keys hashes the key itself where it
 is stored as a pointer value

On 64-bit platforms map_create_u64() keeps keys as pointer values, but the
hash function dereferenced them, so any operation read an arbitrary address.
---
 map.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/map.c b/map.c
index bc75cc3..f0b19dc 100644
--- a/map.c
+++ b/map.c
@@ -92,7 +92,11 @@ static inline uint32_t _map_hash_uint64(uint64_t x) {
 
 static inline uint32_t _map_hash_uint64_key(const void *key) {
   uint64_t lv = 0;
-  memcpy(&lv, key, sizeof(void*));
+  if (sizeof(uintptr_t) >= sizeof(uint64_t)) {
+    lv = (uintptr_t) key; // Key is stored as a pointer value
+  } else {
+    memcpy(&lv, key, sizeof(lv));
+  }
   return _map_hash_uint64(lv);
 }
 
-- 
2.43.0


From 857be7e87599bcbd13e39a42e4249c1d79083c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 04/59] fix: normalize absolute paths fully and refuse too long
 ones

path_normalize_cwd() returned an absolute path untouched if its first dot did
not start a '.' or '..' segment, leaving later '..' segments, double slashes
and trailing slashes in place. Paths longer than PATH_MAX were silently cut.
---
 paths.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/paths.c b/paths.c
index 83fc220..644e35a 100644
--- a/paths.c
+++ b/paths.c
@@ -82,16 +82,15 @@ char* path_normalize(const char *path, char buf[PATH_MAX]) {
 char* path_normalize_cwd(const char *path, const char *cwd, char buf[PATH_MAX]) {
   akassert(cwd);
   if (path[0] == '/') {
-    utils_strncpy(buf, path, PATH_MAX);
-    char *p = strchr(buf, '.');
-    if (  p == 0
-       || !(*(p - 1) == '/' && (p[1] == '/' || p[1] == '.' || p[1] == '\0'))) {
-      return buf;
+    if (strlen(path) >= PATH_MAX) {
+      errno = ENAMETOOLONG;
+      akfatal(errno, "Failed to normalize path, name is too long: %s", path);
     }
+    utils_strncpy(buf, path, PATH_MAX);
   } else {
     utils_strncpy(buf, cwd, PATH_MAX);
     size_t len = strlen(buf);
-    if (len < PATH_MAX - 1) {
+    if (len + strlen(path) < PATH_MAX - 1) {
       buf[len] = '/';
       buf[len + 1] = '\0';
       strncat(buf, path, PATH_MAX - len - 2);
-- 
2.43.0


From 7401b443c2f48d59028503438f468c664805489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 05/59] fix: utils_file_as_buf reports files over the limit and
 closes the file

A file longer than buflen_max was silently truncated without an error if the
limit was reached at a read boundary (always the case for the 1 MiB limits in
use), and the descriptor was never closed.
---
 utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.c b/utils.c
index d9e17ab..e17f6c4 100644
--- a/utils.c
+++ b/utils.c
@@ -21,7 +21,7 @@ struct value utils_file_as_buf(const char *path, ssize_t buflen_max) {
     xstr_destroy(xstr);
     return ret;
   }
-  while (buflen_max != 0 && ret.error == 0) {
+  while (ret.error == 0) {
     ssize_t rb = read(fd, buf, sizeof(buf));
     if (rb > 0) {
       if (buflen_max > -1) {
@@ -41,6 +41,7 @@ struct value utils_file_as_buf(const char *path, ssize_t buflen_max) {
       break;
     }
   }
+  close(fd);
   ret.len = xstr_size(xstr);
   ret.buf = xstr_destroy_keep_ptr(xstr);
   return ret;
-- 
2.43.0


From b3f38ec3dafc36774163d81613bad83249262c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 06/59] fix: report short and failed writes when files are
 copied or written

utils_copy_file() ignored a partial fwrite() and the result of fclose(), which
flushes the buffered tail, so a full disk produced a truncated copy with a
success code. utils_file_write_buf() ignored close().
---
 utils.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/utils.c b/utils.c
index e17f6c4..a9b883b 100644
--- a/utils.c
+++ b/utils.c
@@ -71,7 +71,9 @@ int utils_file_write_buf(const char *path, const char *buf, size_t len, bool app
       return ret;
     }
   }
-  close(fd);
+  if (close(fd) == -1) {
+    return errno;
+  }
   return 0;
 }
 
@@ -92,8 +94,7 @@ int utils_copy_file(const char *src, const char *dst) {
   while (1) {
     nr = fread(buf, 1, sizeof(buf), sf);
     if (nr) {
-      nr = fwrite(buf, 1, nr, df);
-      if (!nr) {
+      if (fwrite(buf, 1, nr, df) != nr) {
         rc = AK_ERROR_IO;
         break;
       }
@@ -105,7 +106,9 @@ int utils_copy_file(const char *src, const char *dst) {
     }
   }
   fclose(sf);
-  fclose(df);
+  if (fclose(df) && !rc) {
+    rc = AK_ERROR_IO;
+  }
   return rc;
 }
 
-- 
2.43.0


From 5e28d5c21f685169008d9ed46f036e15da1a258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 07/59] fix: reset errno before strtol/strtoll

A stale ERANGE made utils_strtol() and utils_strtoll() reject valid numbers.
---
 utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils.c b/utils.c
index a9b883b..35a33ea 100644
--- a/utils.c
+++ b/utils.c
@@ -130,6 +130,7 @@ int utils_rename_file(const char *src, const char *dst) {
 long int utils_strtol(const char *v, int base, int *rcp) {
   *rcp = 0;
   char *ep = 0;
+  errno = 0;
   long int ret = strtol(v, &ep, base);
   if (*ep != '\0' || errno == ERANGE) {
     *rcp = AK_ERROR_INVALID_ARGS;
@@ -141,6 +142,7 @@ long int utils_strtol(const char *v, int base, int *rcp) {
 long long utils_strtoll(const char *v, int base, int *rcp) {
   *rcp = 0;
   char *ep = 0;
+  errno = 0;
   long long ret = strtoll(v, &ep, base);
   if ((*ep != '\0' && *ep != '\n') || errno == ERANGE) {
     *rcp = AK_ERROR_INVALID_ARGS;
-- 
2.43.0


From 15e6e6e3a6db841d2f0420198426424602676157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 08/59] fix: 'defined' condition tests every listed variable,
 not the first one only

---
 node_if.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_if.c b/node_if.c
index f1c045e..3a4426a 100644
--- a/node_if.c
+++ b/node_if.c
@@ -9,7 +9,7 @@
 static bool _if_defined_eval(struct node *mn) {
   struct node *n = mn->parent;
   for (struct node *nn = mn->child; nn; nn = nn->next) {
-    const char *val = node_value(mn->child);
+    const char *val = node_value(nn);
     if (val && *val != '\0' && node_env_get(n, val)) {
       return true;
     }
-- 
2.43.0


From 09cff3e6686cf929bb30f54af6bacf717923ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 09/59] fix: 'and' condition tests every operand, not the first
 one only

---
 node_if.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_if.c b/node_if.c
index 3a4426a..882d1f0 100644
--- a/node_if.c
+++ b/node_if.c
@@ -65,7 +65,7 @@ static bool _if_OR_eval(struct node *n, struct node *mn) {
 }
 
 static bool _if_AND_eval(struct node *n, struct node *mn) {
-  for (struct node *nn = mn->child; nn; nn = nn->child) {
+  for (struct node *nn = mn->child; nn; nn = nn->next) {
     if (!_if_cond_eval(n, nn)) {
       return false;
     }
-- 
2.43.0


From cf2bec3fbdbaedc71e01e0c967bd4d206f148504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 10/59] fix: a list of several items is true whatever its first
 item is

---
 node_if.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_if.c b/node_if.c
index 882d1f0..a9fd3fe 100644
--- a/node_if.c
+++ b/node_if.c
@@ -110,8 +110,8 @@ static bool _if_cond_eval(struct node *n, struct node *mn) {
     if (is_vlist(op)) {
       struct vlist_iter iter;
       vlist_iter_init(op, &iter);
-      if (vlist_iter_next(&iter) && !(iter.len == 1 && iter.item[0] == '0')) {
-        eq = iter.len > 0 || vlist_iter_next(&iter);
+      if (vlist_iter_next(&iter)) {
+        eq = !(iter.len == 1 && iter.item[0] == '0') || vlist_iter_next(&iter);
       }
     } else {
       eq = (op && *op != '\0' && !(op[0] == '0' && op[1] == '\0'));
-- 
2.43.0


From e86ed2da4759c03fcb99e07a0d221ebfc7905df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 11/59] fix: %{path ext} appends the new extension, not the
 path itself

---
 node_basename.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_basename.c b/node_basename.c
index 1425fd6..1fa1ee5 100644
--- a/node_basename.c
+++ b/node_basename.c
@@ -23,7 +23,7 @@ static const char* _basename_value(struct node *n) {
     node_fatal(AK_ERROR_SCRIPT_SYNTAX, n, "Argument is not set");
   }
   if (n->child->next) {
-    replace_ext = node_value(n->child);
+    replace_ext = node_value(n->child->next);
   }
   struct xstr *xstr = xstr_create_empty();
   const char *dp = strrchr(val, '.');
-- 
2.43.0


From 24e6f659daa813ebac66e25cc1e8805237a39da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 12/59] fix: %{path} does not take a dot in a directory name
 for an extension

---
 node_basename.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node_basename.c b/node_basename.c
index 1fa1ee5..19cc967 100644
--- a/node_basename.c
+++ b/node_basename.c
@@ -27,7 +27,8 @@ static const char* _basename_value(struct node *n) {
   }
   struct xstr *xstr = xstr_create_empty();
   const char *dp = strrchr(val, '.');
-  if (dp) {
+  const char *sp = strrchr(val, '/');
+  if (dp && (!sp || dp > sp)) {
     xstr_cat2(xstr, val, (dp - val));
   } else {
     xstr_cat(xstr, val);
-- 
2.43.0


From a30288c8c3a63ac760c08f081eeb0c855b09a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:52 +0000
Subject: [PATCH 13/59] fix: a single value that starts with one dot stays a
 string, not a list

---
 node_set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_set.c b/node_set.c
index ebd28ab..9d85379 100644
--- a/node_set.c
+++ b/node_set.c
@@ -109,7 +109,7 @@ static const char* _set_value_get(struct node *n) {
     return n->impl;
   }
 
-  if (!nn->next && nn->value[0] != '.') { // Single value
+  if (!nn->next && !(nn->value[0] == '.' && nn->value[1] == '.')) { // Single value
     const char *v = node_value(nn);
     n->impl = xstrdup(v);
     n->recur_next.active = false;
-- 
2.43.0


From 1f5180789313803cbef82290f1d5f3c493fd11bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 14/59] fix: read a command's output to its end

A hangup reported together with readable data closed the pipe after a single
read, losing the rest of the output.
---
 spawn.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spawn.c b/spawn.c
index aa25837..e72b2d9 100644
--- a/spawn.c
+++ b/spawn.c
@@ -412,13 +412,12 @@ int spawn_do(struct spawn *s) {
               } else {
                 s->stderr_handler(buf, n, s);
               }
-            } else if (n == -1 && errno != EAGAIN && errno != EWOULDBLOCK) {
+            } else if (n == 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) {
               close(fds[i].fd);
               fds[i].fd = -1;
               --c;
             }
-          }
-          if (revents & (POLLERR | POLLHUP | POLLNVAL)) {
+          } else if (revents & (POLLERR | POLLHUP | POLLNVAL)) {
             close(fds[i].fd);
             fds[i].fd = -1;
             --c;
-- 
2.43.0


From e0f61b60a3fce8be52453e5c8ff94467902424e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 15/59] fix: a command is successful only if its status could
 be obtained

An interrupted or failed poll()/waitpid() left the status of a command at zero.
---
 spawn.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/spawn.c b/spawn.c
index e72b2d9..3a80952 100644
--- a/spawn.c
+++ b/spawn.c
@@ -396,6 +396,10 @@ int spawn_do(struct spawn *s) {
       while (c > 0) {
         int ret = poll(fds, sizeof(fds) / sizeof(fds[0]), -1);
         if (ret == -1) {
+          if (errno == EINTR) {
+            continue;
+          }
+          rc = errno;
           break;
         }
         for (int i = 0; i < sizeof(fds) / sizeof(fds[0]); ++i) {
@@ -425,8 +429,17 @@ int spawn_do(struct spawn *s) {
         }
       }
 
-      if (waitpid(s->pid, &s->wstatus, 0) == -1) {
-        perror("waitpid");
+      for (int i = 0; i < sizeof(fds) / sizeof(fds[0]); ++i) {
+        if (fds[i].fd != -1) {
+          close(fds[i].fd);
+        }
+      }
+
+      while (waitpid(s->pid, &s->wstatus, 0) == -1) {
+        if (errno != EINTR) {
+          rc = errno;
+          break;
+        }
       }
     }
   }
-- 
2.43.0


From a79efe9c1601ad3c1253659cdf960d18a3f65cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 16/59] fix: continue a partial write to a command's input
 where it stopped

---
 spawn.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spawn.c b/spawn.c
index 3a80952..42e352e 100644
--- a/spawn.c
+++ b/spawn.c
@@ -370,12 +370,13 @@ int spawn_do(struct spawn *s) {
       close(pipe_stdin[0]);
       ssize_t tow = 0;
       while ((tow = s->stdin_provider(buf, sizeof(buf), s)) > 0) {
-        while (tow > 0) {
-          len = write(pipe_stdin[1], buf, tow);
-          if (len == -1 && errno == EAGAIN) {
+        for (char *wp = buf; tow > 0; ) {
+          len = write(pipe_stdin[1], wp, tow);
+          if (len == -1 && (errno == EAGAIN || errno == EINTR)) {
             continue;
           }
           if (len > 0) {
+            wp += len;
             tow -= len;
           } else {
             break;
-- 
2.43.0


From 68885659380cb40af140659611ef91c67852c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 17/59] fix: keep environment entries without '=' instead of
 passing garbage

---
 spawn.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/spawn.c b/spawn.c
index 42e352e..2eacfa0 100644
--- a/spawn.c
+++ b/spawn.c
@@ -187,11 +187,7 @@ static char** _env_create(struct spawn *s) {
   for (char **it = environ; *it && i < c; ++it, ++i) {
     const char *entry = *it;
     const char *ep = strchr(entry, '=');
-    if (ep == 0) {
-      continue;
-    }
-    size_t keylen = ep - entry;
-    char *my = _env_find(s, entry, keylen);
+    char *my = ep ? _env_find(s, entry, ep - entry) : 0;
     if (my) {
       nenv[i] = my;
     } else {
-- 
2.43.0


From ea3154c2ca70b830a999bec57397509e4b50db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 18/59] fix: an empty command name is an error, not a shift of
 the arguments

---
 node_run.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_run.c b/node_run.c
index 77cb040..f3ce78b 100644
--- a/node_run.c
+++ b/node_run.c
@@ -89,7 +89,7 @@ static void _run_on_resolve_shell(struct node_resolve *r, struct node *nn_) {
 static void _run_on_resolve_exec(struct node_resolve *r, struct node *ncmd) {
   struct node *n = r->n;
   const char *cmd = node_value(ncmd);
-  if (!cmd) {
+  if (!cmd || *cmd == '\0') {
     node_fatal(AK_ERROR_FAIL, n, "No run command specified");
   }
 
-- 
2.43.0


From 6a793abc15531d75a84efe6383e2438ec8b53f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 19/59] fix: refuse a cache directory that is the project root
 itself

Cleaning would remove the sources. Symbolic links to the root are recognised too.
---
 autark_core.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index d0d23c2..3930665 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -382,8 +382,19 @@ void autark_build_prepare(const char *script_path) {
     akfatal(errno, "Failed to resolve project CACHE dir: %s", g_env.project.cache_dir);
   }
 
-  if (path_is_prefix_for(g_env.project.cache_dir, g_env.project.root_dir, 0)) {
-    akfatal(AK_ERROR_FAIL, "Project cache dir cannot be parent of project root dir", 0);
+  // Symlinks are resolved as well, the cache dir may not exist yet.
+  char cache_real[PATH_MAX], root_real[PATH_MAX];
+  if (!path_real(g_env.project.cache_dir, cache_real)) {
+    utils_strncpy(cache_real, g_env.project.cache_dir, sizeof(cache_real));
+  }
+  if (!path_real(g_env.project.root_dir, root_real)) {
+    utils_strncpy(root_real, g_env.project.root_dir, sizeof(root_real));
+  }
+
+  if (  strcmp(g_env.project.cache_dir, g_env.project.root_dir) == 0 || strcmp(cache_real, root_real) == 0
+     || path_is_prefix_for(g_env.project.cache_dir, g_env.project.root_dir, 0)
+     || path_is_prefix_for(cache_real, root_real, 0)) {
+    akfatal(AK_ERROR_FAIL, "Project cache dir cannot be the project root dir or a parent of it", 0);
   }
 
   if (g_env.project.cleanup) {
-- 
2.43.0


From af0ccf3b28970229238842bc804cb1135bba9b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:01 +0000
Subject: [PATCH 20/59] fix: put a rule's record in place after the values it
 sets, and drop values it no longer sets

---
 script.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/script.c b/script.c
index 1858c2f..32a0f67 100644
--- a/script.c
+++ b/script.c
@@ -1179,18 +1179,21 @@ void node_resolve(struct node_resolve *r) {
       xstr_printf(g_env.check.log, "%s: resolved outdated outdated=%d\n", r->n->name, r->resolve_outdated.num);
     }
     r->on_resolve(r);
-    if (access(deps_path_tmp, F_OK) == 0) {
-      rc = utils_rename_file(deps_path_tmp, deps_path);
-      if (rc) {
-        akfatal(rc, "Rename failed of %s to %s", deps_path_tmp, deps_path);
-      }
-    }
     if (r->on_env_value && !access(env_path_tmp, F_OK)) {
       rc = utils_rename_file(env_path_tmp, env_path);
       if (rc) {
         akfatal(rc, "Rename failed of %s to %s", env_path_tmp, env_path);
       }
       env_created = true;
+    } else if (r->on_env_value) {
+      unlink(env_path); // The action sets no values this time
+    }
+    // The record of success comes last
+    if (access(deps_path_tmp, F_OK) == 0) {
+      rc = utils_rename_file(deps_path_tmp, deps_path);
+      if (rc) {
+        akfatal(rc, "Rename failed of %s to %s", deps_path_tmp, deps_path);
+      }
     }
   }
 
-- 
2.43.0


From cf8c52a22e872d107f99503908f5519bbd1f21da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:01 +0000
Subject: [PATCH 21/59] fix: a dependency record that could not be written or
 read completely is an error

---
 deps.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/deps.c b/deps.c
index 764cec4..2b97136 100644
--- a/deps.c
+++ b/deps.c
@@ -195,8 +195,12 @@ int deps_add_sys_env(struct deps *d, char flags, const char *key, const char *va
 
 void deps_close(struct deps *d) {
   if (d && d->file) {
-    fclose(d->file);
+    int err = ferror(d->file);
+    FILE *f = d->file;
     d->file = 0;
+    if (fclose(f) || err) {
+      akfatal(errno, "Failed to read or write a dependency file", 0);
+    }
   }
 }
 
-- 
2.43.0


From 10fc7e0322c98660e6420f0514ec1039d9ffb917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 22/59] fix: values set by check scripts arrive whole (long
 lines, newlines, write errors)

---
 autark_core.c |  9 +++++++--
 script.c      | 14 ++++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 3930665..5db944c 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -469,10 +469,15 @@ static void _on_command_set(int argc, const char **argv) {
       if (g_env.verbose) {
         akinfo("autark set %s", kv);
       }
-      fprintf(f, "%s\n", kv);
+      char *line = pool_strdup(g_env.pool, kv);
+      utils_chars_replace(line, '\n', '\2'); // One line per value
+      fprintf(f, "%s\n", line);
     }
   }
-  fclose(f);
+  int err = ferror(f);
+  if (fclose(f) || err) {
+    akfatal(errno, "Failed to write file: %s", env_path);
+  }
 }
 
 static void _on_command_dep(int argc, const char **argv) {
diff --git a/script.c b/script.c
index 32a0f67..e41d56c 100644
--- a/script.c
+++ b/script.c
@@ -1198,23 +1198,29 @@ void node_resolve(struct node_resolve *r) {
   }
 
   if (r->on_env_value && (r->mode & NODE_RESOLVE_ENV_ALWAYS) && (env_created || !access(env_path, R_OK))) {
-    char buf[4096];
+    char *buf = 0;
+    size_t bufsz = 0;
     FILE *f = fopen(env_path, "r");
     if (f) {
-      while (fgets(buf, sizeof(buf), f)) {
+      for (ssize_t len; (len = getline(&buf, &bufsz, f)) > 0; ) {
         char *p = strchr(buf, '=');
         if (p) {
           *p = '\0';
           char *val = p + 1;
-          for (int vlen = strlen(val); vlen >= 0 && (val[vlen - 1] == '\n' || val[vlen - 1] == '\r'); --vlen) {
+          for (int vlen = strlen(val); vlen > 0 && (val[vlen - 1] == '\n' || val[vlen - 1] == '\r'); --vlen) {
             val[vlen - 1] = '\0';
           }
+          utils_chars_replace(val, '\2', '\n');
           r->on_env_value(r, buf, val);
         }
       }
+      if (ferror(f)) {
+        akfatal(errno, "Failed to read env file: %s", env_path);
+      }
+      free(buf);
       fclose(f);
     } else {
-      akfatal(rc, "Failed to open env file: %s", env_path);
+      akfatal(errno, "Failed to open env file: %s", env_path);
     }
   }
 
-- 
2.43.0


From aab56ceee1f3d1c6783c4548973d6eb3859c87df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:06 +0000
Subject: [PATCH 23/59] fix: cached program output (@@) is refreshed when a
 variable in its arguments changed

---
 node_subst.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/node_subst.c b/node_subst.c
index 58133b8..66062e4 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -131,6 +131,13 @@ static void _subst_value_proc_cache_on_resolve(struct node_resolve *r) {
     node_fatal(rc, n, "Failed to open dependency file: %s", r->deps_path_tmp);
   }
   node_add_unit_deps(n, &deps);
+  for (int i = 0; i < r->node_val_deps.num; ++i) {
+    struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, i);
+    const char *val = node_value(nv);
+    if (val) {
+      deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val, i);
+    }
+  }
   deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
   deps_close(&deps);
 }
-- 
2.43.0


From 624996b9129190b83adfeee31cccd7a4ac414df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:47 +0000
Subject: [PATCH 24/59] fix: a check is run again when its script or a variable
 in its arguments changed

---
 node_check.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/node_check.c b/node_check.c
index 8c9856a..d196127 100644
--- a/node_check.c
+++ b/node_check.c
@@ -61,6 +61,14 @@ static void _check_on_resolve(struct node_resolve *r) {
     node_fatal(rc, unit->n, "Failed to open depencency file: %s", r->deps_path_tmp);
   }
   node_add_unit_deps(n, &deps);
+  deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
+  for (int i = 0; i < r->node_val_deps.num; ++i) {
+    struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, i);
+    const char *val = node_value(nv);
+    if (val) {
+      deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val, i);
+    }
+  }
   deps_close(&deps);
 }
 
@@ -103,8 +111,15 @@ static void _check_script(struct node *n) {
     .user_data = unit,
     .on_env_value = _check_on_env_value,
     .on_resolve = _check_on_resolve,
+    .node_val_deps = { .usize = sizeof(struct node*) },
   };
 
+  for (struct node *nn = n->child; nn; nn = nn->next) {
+    if (node_is_value_may_be_dep_saved(nn)) {
+      ulist_push(&nr.node_val_deps, &nn);
+    }
+  }
+
   node_resolve(&nr);
 
   unit_pop();
-- 
2.43.0


From 84b41b4cb86fea28ec11b7f95bf8d11180b1df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 25/59] fix: a check named by a variable is run again when the
 variable names another script

---
 node_check.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node_check.c b/node_check.c
index d196127..1b57d6b 100644
--- a/node_check.c
+++ b/node_check.c
@@ -114,6 +114,9 @@ static void _check_script(struct node *n) {
     .node_val_deps = { .usize = sizeof(struct node*) },
   };
 
+  if (node_is_value_may_be_dep_saved(n)) {
+    ulist_push(&nr.node_val_deps, &n);
+  }
   for (struct node *nn = n->child; nn; nn = nn->next) {
     if (node_is_value_may_be_dep_saved(nn)) {
       ulist_push(&nr.node_val_deps, &nn);
-- 
2.43.0


From b5cc7d9a3892dca7c334253ed2decd9f2000907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:00 +0000
Subject: [PATCH 26/59] fix: an empty @{} is an empty value instead of a null
 pointer

---
 node_subst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_subst.c b/node_subst.c
index 66062e4..4935eb1 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -76,7 +76,7 @@ static const char* _subst_value_proc(struct node *n) {
   }
   const char *cmd = node_value(n->child);
   if (cmd == 0 || *cmd == '\0') {
-    return 0;
+    return "";
   }
   struct xstr *xstr = xstr_create_empty();
   struct _subst_ctx ctx = {
-- 
2.43.0


From 4895ae1a19c61bfcbedbbbd27c45817f2ef1803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:00 +0000
Subject: [PATCH 27/59] fix: cached program output (@@) of any size is read
 back

---
 node_subst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_subst.c b/node_subst.c
index 4935eb1..111e813 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -166,7 +166,7 @@ static const char* _subst_value_proc_cache(struct node *n) {
     struct unit *unit = unit_peek();
     char path[PATH_MAX];
     snprintf(path, sizeof(path), "%s/%s.cache", unit->cache_dir, r.path);
-    struct value val = utils_file_as_buf(path, 1024 * 1024); // 1Mb max
+    struct value val = utils_file_as_buf(path, -1);
     if (val.error) {
       node_fatal(val.error, n, "Failed to read cache file: %s", path);
     }
-- 
2.43.0


From ec7ecf45f670a770c9e32fb7c5756dcfa71901ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:39 +0000
Subject: [PATCH 28/59] fix: a compiler that cannot be started fails the build
 without a double free or a wait for nothing

---
 node_cc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node_cc.c b/node_cc.c
index 53672aa..aa53cb1 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -157,7 +157,6 @@ static void _cc_on_build_source(
 
   int rc = spawn_do(s);
   if (rc) {
-    spawn_destroy(s);
     node_error(rc, ctx->n, "%s", ctx->cc);
     return;
   }
@@ -247,6 +246,10 @@ static void _cc_on_resolve(struct node_resolve *r) {
       ++i;
     }
 
+    if (tasks.num == 0) { // No compiler could be started
+      continue;
+    }
+
     int wstatus = 0;
     pid_t pid = wait(&wstatus);
     if (pid == -1) {
-- 
2.43.0


From c9a51e8c3e6982aeb66354bd7a48ac4e680ce7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:54 +0000
Subject: [PATCH 29/59] fix: sources are compiled again when the compiler in CC
 or CXX changes

---
 node_cc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/node_cc.c b/node_cc.c
index aa53cb1..5eab0ba 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -27,6 +27,7 @@ struct _cc_ctx {
   struct node *n_objects;
   const char  *cc;
   const char *objskey;
+  const char *cckey;        // Variable the compiler was taken from
   struct ulist consumes;    // sizeof(char*)
   int num_failed;
 };
@@ -206,6 +207,11 @@ static void _cc_on_resolve(struct node_resolve *r) {
     }
   }
 
+  if (ctx->cckey) {
+    const char *cc = node_env_get(ctx->n, ctx->cckey);
+    deps_add_env(&deps, 0, ctx->cckey, cc ? cc : "");
+  }
+
   for (int i = 0; i < ctx->consumes.num; ++i) {
     const char *path = *(const char**) ulist_get(&ctx->consumes, i);
     deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
@@ -428,6 +434,7 @@ static void _cc_setup(struct node *n) {
   }
   if (!ctx->cc) {
     const char *key = strcmp(n->value, "cc") == 0 ? "CC" : "CXX";
+    ctx->cckey = key;
     if (key) {
       ctx->cc = pool_strdup(ctx->pool, node_env_get(n, key));
       if (g_env.verbose && ctx->cc) {
-- 
2.43.0


From f861a7a00f482d6af24829e01fb82c52e2d23fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:38 +0000
Subject: [PATCH 30/59] fix: every file a compiled source includes is tracked,
 whatever its name

---
 node_cc.c | 46 ++++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/node_cc.c b/node_cc.c
index 5eab0ba..5bac966 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -32,19 +32,21 @@ struct _cc_ctx {
   int num_failed;
 };
 
-static void _cc_deps_MMD_item_add(const char *item, struct node *n, struct deps *deps, const char *src) {
-  char buf[127];
-  char *p = strrchr(item, '.');
-  if (!p || p[1] == '\0') {
-    return;
+// Cuts off the next name of a make rule, removes the escapes in it.
+static char* _cc_deps_MMD_item_next(char **pp) {
+  char *p = *pp, *sp = p, *wp = p;
+  while (*p != '\0' && !utils_char_is_space(*p)) {
+    if ((*p == '\\' && (p[1] == ' ' || p[1] == '#')) || (*p == '$' && p[1] == '$')) {
+      ++p;
+    }
+    *wp++ = *p++;
   }
-  ++p;
-  char *ext = utils_strncpy(buf, p, sizeof(buf));
-  if (*ext == 'c' || *ext == 'C' || *ext == 'm') {
-    // Skip source files
-    return;
+  if (*p != '\0') {
+    ++p;
   }
-  deps_add_alias(deps, 's', src, item);
+  *wp = '\0';
+  *pp = p;
+  return sp;
 }
 
 static void _cc_deps_MMD_add(struct node *n, struct deps *deps, const char *src, const char *obj) {
@@ -67,11 +69,8 @@ static void _cc_deps_MMD_add(struct node *n, struct deps *deps, const char *src,
 
   while ((p = fgets(buf, sizeof(buf), f))) {
     if (!nl) {
-      if (!utils_startswith(p, obj)) {
-        continue;
-      }
-      p += len;
-      if (*p++ != ':') {
+      char *target = _cc_deps_MMD_item_next(&p);
+      if (!utils_startswith(target, obj) || target[len] != ':') {
         continue;
       }
     } else {
@@ -86,18 +85,9 @@ static void _cc_deps_MMD_add(struct node *n, struct deps *deps, const char *src,
         nl = true;
         break;
       }
-      char *sp = p;
-      char *ep = sp;
-      while (*p != '\0' && !utils_char_is_space(*p)) {
-        ep = p;
-        ++p;
-      }
-      if (ep > sp) {
-        if (*p != '\0') {
-          *p = '\0';
-          ++p;
-        }
-        _cc_deps_MMD_item_add(sp, n, deps, src);
+      char *item = _cc_deps_MMD_item_next(&p);
+      if (*item != '\0' && strcmp(item, src) != 0) { // Skip the source file itself
+        deps_add_alias(deps, 's', src, item);
       }
     }
   }
-- 
2.43.0


From 6e0341c5cf0999564182768a896d13b683aea4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:04 +0000
Subject: [PATCH 31/59] fix: unit_pop does not read the popped entry after the
 stack may have been reallocated

---
 autark_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 5db944c..8578d93 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -195,7 +195,7 @@ void unit_push(struct unit *unit, struct node *n) {
 
 struct unit* unit_pop(void) {
   akassert(g_env.stack_units.num > 0);
-  struct unit_ctx *ctx = (struct unit_ctx*) ulist_get(&g_env.stack_units, g_env.stack_units.num - 1);
+  struct unit_ctx ctx = unit_peek_ctx(); // A copy: the list may shrink on pop
   ulist_pop(&g_env.stack_units);
   struct unit_ctx peek = unit_peek_ctx();
   if (peek.unit) {
@@ -204,7 +204,7 @@ struct unit* unit_pop(void) {
   } else {
     unsetenv(AUTARK_UNIT);
   }
-  return ctx->unit;
+  return ctx.unit;
 }
 
 struct unit* unit_peek(void) {
-- 
2.43.0


From f727ebc6b50cc9be07928c1f67f62a5fee91adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 32/59] fix: configure: text before a lone @ at the end of a
 template is not duplicated

---
 node_configure.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index 5c3936b..98bb0e6 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -80,6 +80,7 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
   do {
     xstr_cat2(xstr, s, sp - s);
     xstr_clear(kstr);
+    s = sp; // The rest of line starts here if there is no closing '@'
     char *p = ++sp;
     sp = 0;
 
@@ -112,12 +113,7 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
     }
   } while (sp);
 
-  if (xstr_size(kstr)) {
-    xstr_cat2(xstr, "@", 1);
-    xstr_cat(xstr, xstr_ptr(kstr));
-  } else {
-    xstr_cat(xstr, s);
-  }
+  xstr_cat(xstr, s);
   xstr_destroy(kstr);
 
   return xstr_destroy_keep_ptr(xstr);
-- 
2.43.0


From d08d1f4e0bfb9d76253d5ba2a3cf8f6dfbdc4b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 33/59] fix: configure: a list of templates is iterated from
 its start

---
 node_configure.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node_configure.c b/node_configure.c
index 98bb0e6..72640a2 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -296,6 +296,7 @@ static void _configure_setup(struct node *n) {
     const char *v = node_value(nn);
     if (is_vlist(v)) {
       struct vlist_iter iter;
+      vlist_iter_init(v, &iter);
       while (vlist_iter_next(&iter)) {
         char buf[iter.len + 1];
         memcpy(buf, iter.item, iter.len);
-- 
2.43.0


From 63d26119be88a26ef18174cc5318be2b6c5ff2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 34/59] fix: configure: markers in lines longer than 16 KiB are
 substituted

---
 node_configure.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index 72640a2..2a4ce64 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -139,10 +139,10 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
     node_fatal(errno, n, "Failed to open file for writing: %s", tgt);
   }
 
-  char *line;
-  char buf[16384];
+  char *line = 0;
+  size_t line_size = 0;
 
-  while ((line = fgets(buf, sizeof(buf), f))) {
+  while (getline(&line, &line_size, f) != -1) {
     char *rl;
     if (utils_startswith(line, "//autarkdef ")) {
       rl = _line_replace_def(n, deps, line);
@@ -156,6 +156,7 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
       free(rl);
     }
   }
+  free(line);
 
   // Transfer file permissions
   struct stat st;
-- 
2.43.0


From dddac07ef613bea4dbb114130e1168dd73dfa7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 35/59] fix: configure: failure to read the template or to
 write the target is reported

---
 node_configure.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node_configure.c b/node_configure.c
index 2a4ce64..e4423e0 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -168,8 +168,11 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
     node_fatal(errno, n, "Failed to set permissions on target file: %s", tgt);
   }
 
+  bool ioerr = ferror(f);
   fclose(f);
-  fclose(t);
+  if (fclose(t) || ioerr) {
+    node_fatal(AK_ERROR_IO, n, "File write fail: %s", tgt);
+  }
 
   if (xstr) {
     int rc = utils_rename_file(tgt, src);
-- 
2.43.0


From 4c1b3b96e18eaacbfe4fbaca42bb807b06bec161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:49 +0000
Subject: [PATCH 36/59] fix: configure: variables of templates which are up to
 date are still tracked

---
 node_configure.c | 81 ++++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 34 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index e4423e0..98ec950 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -119,24 +119,30 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
   return xstr_destroy_keep_ptr(xstr);
 }
 
+// If `tgt` is zero variables used in `src` are tracked but nothing is written.
 static void _process_file(struct node *n, const char *src, const char *tgt, struct deps *deps) {
   struct xstr *xstr = 0;
-  if (strcmp(src, tgt) == 0) {
+  if (tgt && strcmp(src, tgt) == 0) {
     xstr = xstr_create_empty();
     xstr_printf(xstr, "%s.tmp", src);
     tgt = xstr_ptr(xstr);
   }
 
-  path_mkdirs_for(tgt);
+  if (tgt) {
+    path_mkdirs_for(tgt);
+  }
 
   FILE *f = fopen(src, "r");
   if (!f) {
     node_fatal(errno, n, "Failed to open file: %s", src);
   }
 
-  FILE *t = fopen(tgt, "w");
-  if (!t) {
-    node_fatal(errno, n, "Failed to open file for writing: %s", tgt);
+  FILE *t = 0;
+  if (tgt) {
+    t = fopen(tgt, "w");
+    if (!t) {
+      node_fatal(errno, n, "Failed to open file for writing: %s", tgt);
+    }
   }
 
   char *line = 0;
@@ -149,7 +155,7 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
     } else {
       rl = _line_replace_subs(n, deps, line);
     }
-    if (rl && fputs(rl, t) == EOF) {
+    if (t && rl && fputs(rl, t) == EOF) {
       node_fatal(AK_ERROR_IO, n, "File write fail: %s", tgt);
     }
     if (rl != line) {
@@ -158,20 +164,22 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
   }
   free(line);
 
-  // Transfer file permissions
-  struct stat st;
-  if (stat(src, &st) == -1) {
-    node_fatal(errno, n, "Failed to stat source file: %s", src);
-  }
+  bool ioerr = ferror(f);
 
-  if (fchmod(fileno(t), st.st_mode & 07777) == -1) {
-    node_fatal(errno, n, "Failed to set permissions on target file: %s", tgt);
+  // Transfer file permissions
+  if (t) {
+    struct stat st;
+    if (stat(src, &st) == -1) {
+      node_fatal(errno, n, "Failed to stat source file: %s", src);
+    }
+    if (fchmod(fileno(t), st.st_mode & 07777) == -1) {
+      node_fatal(errno, n, "Failed to set permissions on target file: %s", tgt);
+    }
   }
 
-  bool ioerr = ferror(f);
   fclose(f);
-  if (fclose(t) || ioerr) {
-    node_fatal(AK_ERROR_IO, n, "File write fail: %s", tgt);
+  if ((t && fclose(t)) || ioerr) {
+    node_fatal(AK_ERROR_IO, n, "File read/write fail: %s", tgt ? tgt : src);
   }
 
   if (xstr) {
@@ -183,11 +191,21 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
   }
 }
 
+static bool _is_outdated(struct node_resolve *r, const char *src) {
+  char buf[PATH_MAX];
+  const char *path = path_normalize(src, buf);
+  for (int i = 0; i < r->resolve_outdated.num; ++i) {
+    struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
+    if (path && strcmp(u->path, path) == 0) {
+      return true;
+    }
+  }
+  return false;
+}
+
 static void _configure_on_resolve(struct node_resolve *r) {
   struct node *n = r->n;
   struct _configure_ctx *ctx = n->impl;
-  struct ulist *slist = &ctx->sources;
-  struct ulist rlist = { .usize = sizeof(char*) };
   struct unit *unit = unit_peek();
 
   struct deps deps;
@@ -197,23 +215,19 @@ static void _configure_on_resolve(struct node_resolve *r) {
   }
   node_add_unit_deps(n, &deps);
 
-  if (r->resolve_outdated.num) {
-    for (int i = 0; i < r->resolve_outdated.num; ++i) {
-      struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
-      if (u->flags != 's') {
-        slist = &ctx->sources;
-        break;
-      } else {
-        char *path = pool_strdup(r->pool, u->path);
-        ulist_push(&rlist, &path);
-        slist = &rlist;
-      }
+  bool all = r->resolve_outdated.num == 0;
+  for (int i = 0; i < r->resolve_outdated.num; ++i) {
+    struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
+    if (u->flags != 's') {
+      all = true;
+      break;
     }
   }
 
-  for (int i = 0; i < slist->num; ++i) {
+  for (int i = 0; i < ctx->sources.num; ++i) {
     char buf[PATH_MAX];
-    char *tgt, *src = *(char**) ulist_get(slist, i);
+    char *tgt, *src = *(char**) ulist_get(&ctx->sources, i);
+    bool update = all || _is_outdated(r, src);
     src = path_normalize_cwd(src, unit->cache_dir, buf);
     bool incache = path_is_prefix_for(g_env.project.cache_dir, src, unit->cache_dir);
     if (!incache) {
@@ -228,7 +242,8 @@ static void _configure_on_resolve(struct node_resolve *r) {
       tgt[len - AK_LLEN(".in")] = '\0';
     }
 
-    _process_file(n, src, tgt, &deps);
+    // Templates which are up to date are read in order to keep track of their variables
+    _process_file(n, src, update ? tgt : 0, &deps);
 
     free(tgt);
     free(src);
@@ -240,8 +255,6 @@ static void _configure_on_resolve(struct node_resolve *r) {
   }
 
   deps_close(&deps);
-
-  ulist_destroy_keep(&rlist);
 }
 
 static void _configure_on_resolve_init(struct node_resolve *r) {
-- 
2.43.0


From 794c17953c7ffc8bfb2706dc9f318a1921e9a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:59 +0000
Subject: [PATCH 37/59] fix: configure: the rule runs again when its list of
 templates changes

---
 node_configure.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/node_configure.c b/node_configure.c
index 98ec950..98c67fa 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -249,6 +249,14 @@ static void _configure_on_resolve(struct node_resolve *r) {
     free(src);
   }
 
+  for (int i = 0; i < r->node_val_deps.num; ++i) {
+    struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, i);
+    const char *val = node_value(nv);
+    if (val) {
+      deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val, i);
+    }
+  }
+
   for (int i = 0; i < ctx->sources.num; ++i) {
     char *src = *(char**) ulist_get(&ctx->sources, i);
     deps_add(&deps, DEPS_TYPE_FILE, 's', src, 0);
@@ -269,7 +277,13 @@ static void _configure_build(struct node *n) {
     .path = n->vfile,
     .on_init = _configure_on_resolve_init,
     .on_resolve = _configure_on_resolve,
+    .node_val_deps = { .usize = sizeof(struct node*) },
   };
+  for (struct node *nn = n->child; nn; nn = nn->next) {
+    if (node_is_value_may_be_dep_saved(nn)) {
+      ulist_push(&r.node_val_deps, &nn);
+    }
+  }
   node_resolve(&r);
 }
 
-- 
2.43.0


From 8c6cd739e00971d6f5e6dc66c2c2952fe431dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:04 +0000
Subject: [PATCH 38/59] fix: run: the list of items of a loop and arguments
 which use its variable are tracked

---
 node_run.c |  7 +++++++
 script.c   | 13 +------------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/node_run.c b/node_run.c
index f3ce78b..b731c9a 100644
--- a/node_run.c
+++ b/node_run.c
@@ -326,6 +326,13 @@ static void _run_build(struct node *n) {
     .node_val_deps = { .usize = sizeof(struct node*) },
   };
 
+  if (ctx.fe) { // Track the list of items
+    struct node *nf = node_find_parent_of_type(n, NODE_TYPE_FOREACH);
+    if (node_is_value_may_be_dep_saved(nf->child->next)) {
+      ulist_push(&r.node_val_deps, &nf->child->next);
+    }
+  }
+
   r.force_outdated = n->post_build != 0
                      || node_find_direct_child(n, NODE_TYPE_VALUE, "always") != 0;
 
diff --git a/script.c b/script.c
index e41d56c..154f593 100644
--- a/script.c
+++ b/script.c
@@ -1007,18 +1007,7 @@ bool node_is_value_may_be_dep_saved(struct node *n) {
   if (!n || n->type == NODE_TYPE_VALUE) { // Hardcoded value
     return false;
   }
-  if (node_is_can_be_value(n)) {
-    struct node_foreach *fe = node_find_parent_foreach(n);
-    if (fe) {
-      fe->access_cnt = 0;
-      node_value(n);
-      if (fe->access_cnt > 0) {
-        return false;
-      }
-    }
-    return true;
-  }
-  return false;
+  return node_is_can_be_value(n);
 }
 
 struct node* node_consumes_resolve(
-- 
2.43.0


From 9b4f565c025236fd90d2cdeb5ad90a9251fc379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:04 +0000
Subject: [PATCH 39/59] fix: foreach: output of a command which uses the
 current item is not kept for other items

---
 node_subst.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/node_subst.c b/node_subst.c
index 111e813..3d2ed58 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -70,7 +70,25 @@ static void _subst_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
   fprintf(stdout, "%s", buf);
 }
 
+// Output of a command which depends on the current item of `foreach` must not be kept
+static void _subst_proc_foreach_reset(struct node *n) {
+  struct node_foreach *fe = n->impl ? node_find_parent_foreach(n) : 0;
+  if (fe) {
+    int cnt = fe->access_cnt;
+    for (struct node *nn = n->child; nn; nn = nn->next) {
+      if (node_is_can_be_value(nn)) {
+        node_value(nn);
+      }
+    }
+    if (fe->access_cnt != cnt) {
+      free(n->impl);
+      n->impl = 0;
+    }
+  }
+}
+
 static const char* _subst_value_proc(struct node *n) {
+  _subst_proc_foreach_reset(n);
   if (n->impl) {
     return n->impl;
   }
@@ -143,6 +161,7 @@ static void _subst_value_proc_cache_on_resolve(struct node_resolve *r) {
 }
 
 static const char* _subst_value_proc_cache(struct node *n) {
+  _subst_proc_foreach_reset(n);
   if (n->impl) {
     return n->impl;
   }
-- 
2.43.0


From 40da3571132cddca2dff8b3dc95d362d209110b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:43 +0000
Subject: [PATCH 40/59] fix: configure: a long list value does not exhaust the
 stack

---
 node_configure.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index 98c67fa..b02a425 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -93,12 +93,9 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
 
         if (val && *val != '\0') {
           if (is_vlist(val)) {
-            ++val;
-            size_t len = strlen(val);
-            char buf[len + 1];
-            memcpy(buf, val, len + 1);
-            utils_chars_replace(buf, '\1', ' ');
-            xstr_cat(xstr, buf);
+            size_t off = xstr_size(xstr);
+            xstr_cat(xstr, val + 1);
+            utils_chars_replace(xstr_ptr(xstr) + off, '\1', ' ');
           } else {
             xstr_cat(xstr, val);
           }
-- 
2.43.0


From d67229b4f99a393fb32af82602eda42d25cab481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:55 +0000
Subject: [PATCH 41/59] fix: splitting a long value does not exhaust the stack

---
 utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils.c b/utils.c
index 35a33ea..9936d99 100644
--- a/utils.c
+++ b/utils.c
@@ -2,6 +2,7 @@
 #include "utils.h"
 #include "xstr.h"
 #include "log.h"
+#include "alloc.h"
 
 #include <string.h>
 #include <unistd.h>
@@ -156,7 +157,7 @@ void utils_split_values_add(const char *v, struct xstr *xstr) {
     xstr_cat(xstr, v);
     return;
   }
-  char buf[strlen(v) + 1];
+  char *buf = xmalloc(strlen(v) + 1);
   const char *p = v;
 
   while (*p) {
@@ -190,6 +191,7 @@ void utils_split_values_add(const char *v, struct xstr *xstr) {
     xstr_cat(xstr, "\1");
     xstr_cat(xstr, buf);
   }
+  free(buf);
 }
 
 int utils_fd_make_non_blocking(int fd) {
-- 
2.43.0


From 79d2b701aa36837030fd38c839448ef70d92be1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 42/59] fix: configure: a variable that becomes defined with an
 empty value is noticed

---
 deps.c           | 3 +++
 node_configure.c | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/deps.c b/deps.c
index 2b97136..dd2af23 100644
--- a/deps.c
+++ b/deps.c
@@ -99,6 +99,9 @@ bool deps_cur_is_outdated(struct node *n, struct deps *d) {
       }
       case DEPS_TYPE_ENV: {
         const char *val = unit_env_get(n, d->alias);
+        if ((d->flags == 'u' && val) || (d->flags == 'd' && !val)) { // Was [u]ndefined or [d]efined
+          return true;
+        }
         if (!val) {
           val = "";
         }
diff --git a/node_configure.c b/node_configure.c
index b02a425..54ac4f9 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -35,7 +35,7 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
   if (*np == '\"') {
     utils_strnncpy(key, sp, ep - sp, sizeof(key));
     const char *val = node_env_get(n, key);
-    deps_add_env(deps, 0, key, val ? val : "");
+    deps_add_env(deps, val ? 'd' : 'u', key, val ? val : "");
     if (val) {
       struct xstr *xstr = xstr_create_empty();
       xstr_printf(xstr, "#define %s \"%s\"\n", key, val);
@@ -44,7 +44,7 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
   } else if (*np >= '0' && *np <= '9') {
     utils_strnncpy(key, sp, ep - sp, sizeof(key));
     const char *val = node_env_get(n, key);
-    deps_add_env(deps, 0, key, val ? val : "");
+    deps_add_env(deps, val ? 'd' : 'u', key, val ? val : "");
     if (val) {
       struct xstr *xstr = xstr_create_empty();
       xstr_printf(xstr, "#define %s %s", key, np);
@@ -57,7 +57,7 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
   } else {
     utils_strnncpy(key, sp, ep - sp, sizeof(key));
     const char *val = node_env_get(n, key);
-    deps_add_env(deps, 0, key, val ? val : "");
+    deps_add_env(deps, val ? 'd' : 'u', key, val ? val : "");
     if (val) {
       struct xstr *xstr = xstr_create_empty();
       xstr_printf(xstr, "#define %s\n", key);
@@ -89,7 +89,7 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
         const char *key = xstr_ptr(kstr);
         const char *val = node_env_get(n, key);
 
-        deps_add_env(deps, 0, key, val ? val : "");
+        deps_add_env(deps, val ? 'd' : 'u', key, val ? val : "");
 
         if (val && *val != '\0') {
           if (is_vlist(val)) {
-- 
2.43.0


From 56b69363ae217972eb56cb23147b7215973296b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:46 +0000
Subject: [PATCH 43/59] fix: install replaces a symlink at the destination and
 never wipes its own source

---
 node_install.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/node_install.c b/node_install.c
index 91911fc..4a24c2f 100644
--- a/node_install.c
+++ b/node_install.c
@@ -57,6 +57,17 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
   struct node *n = ctx->n;
   node_info(n, "File %s => %s", src, dst);
 
+  struct stat dst_st;
+  if (lstat(dst, &dst_st) == 0) {
+    if (S_ISLNK(dst_st.st_mode)) { // Replace the link, keep the file it refers to
+      if (unlink(dst) == -1) {
+        node_fatal(errno, n, "Error removing symlink: %s", dst);
+      }
+    } else if (dst_st.st_dev == st->st_dev && dst_st.st_ino == st->st_ino) {
+      return; // Already in place, opening it for writing would wipe the source
+    }
+  }
+
   int in_fd = open(src, O_RDONLY);
   if (in_fd == -1) {
     node_fatal(errno, n, "Error opening file: %s", src);
-- 
2.43.0


From e4ccff82271fb11344a4343c3bfae883c0e725d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:46 +0000
Subject: [PATCH 44/59] fix: install fails when permissions cannot be set or
 data cannot be written

---
 node_install.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/node_install.c b/node_install.c
index 4a24c2f..e55e5c3 100644
--- a/node_install.c
+++ b/node_install.c
@@ -102,7 +102,9 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
     }
   }
 
-  fchmod(out_fd, st->st_mode);
+  if (fchmod(out_fd, st->st_mode) == -1) {
+    node_fatal(errno, n, "Error setting permissions of file: %s", dst);
+  }
 #ifdef __APPLE__
   struct timespec times[2] = { st->st_atime, st->st_mtime };
 #else
@@ -111,7 +113,9 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
   futimens(out_fd, times);
 
   close(in_fd);
-  close(out_fd);
+  if (close(out_fd) == -1) {
+    node_fatal(errno, n, "Error writing file: %s", dst);
+  }
 }
 
 static void _install_do(struct node_resolve *r, const char *src, const char *target) {
-- 
2.43.0


From c2a653a3bbc46f3f8e34e96f784e54f04edd3326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:46 +0000
Subject: [PATCH 45/59] fix: install fails when the destination path is too
 long

---
 node_install.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/node_install.c b/node_install.c
index e55e5c3..1198a95 100644
--- a/node_install.c
+++ b/node_install.c
@@ -131,7 +131,9 @@ static void _install_do(struct node_resolve *r, const char *src, const char *tar
   }
 
   utils_strncpy(src_buf, src, sizeof(src_buf));
-  snprintf(dst_buf, sizeof(dst_buf), "%s/%s", target, path_basename(src_buf));
+  if (snprintf(dst_buf, sizeof(dst_buf), "%s/%s", target, path_basename(src_buf)) >= sizeof(dst_buf)) {
+    node_fatal(AK_ERROR_OVERFLOW, ctx->n, "Install path is too long. File: %s", src);
+  }
 
   if (S_ISREG(st.st_mode)) {
     _install_file(ctx, src, dst_buf, &st);
-- 
2.43.0


From cb6ddec831c6012ea4911c59d70f8d0926ec34ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:46 +0000
Subject: [PATCH 46/59] fix: install refuses different files with the same
 destination

---
 node_install.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/node_install.c b/node_install.c
index 1198a95..1f25ce1 100644
--- a/node_install.c
+++ b/node_install.c
@@ -12,6 +12,7 @@
 #include <sys/stat.h>
 #include <sys/types.h>
 #include <limits.h>
+#include <string.h>
 #include <errno.h>
 #endif
 
@@ -218,11 +219,22 @@ static void _install_on_resolve(struct node_resolve *r) {
   ulist_destroy_keep(&rlist);
 }
 
+static const char* _install_name(const char *path) {
+  const char *p = strrchr(path, '/');
+  return p ? p + 1 : path;
+}
+
 static void _install_on_consumed_resolved(const char *path_, void *d) {
   struct _install_on_resolve_ctx *ctx = d;
   if (path_is_dir(path_)) {
     node_fatal(AK_ERROR_FAIL, ctx->n, "Installing of directories is not supported. Path: %s", path_);
   }
+  for (int i = 0; i < ctx->consumes.num; ++i) {
+    const char *other = *(const char**) ulist_get(&ctx->consumes, i);
+    if (strcmp(other, path_) && strcmp(_install_name(other), _install_name(path_)) == 0) {
+      node_fatal(AK_ERROR_FAIL, ctx->n, "Files cannot be installed at the same place: %s, %s", other, path_);
+    }
+  }
   const char *path = pool_strdup(ctx->r->pool, path_);
   ulist_push(&ctx->consumes, &path);
 }
-- 
2.43.0


From adcb0eab5fb62a9d3dfbc73ba0f3ecff20f3e150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:46 +0000
Subject: [PATCH 47/59] fix: --bindir no longer ends the option list

---
 autark_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 8578d93..2dc1d17 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -690,7 +690,7 @@ void autark_run(int argc, const char **argv) {
     { "prefix", 1, 0, 'R' },
     { "dir", 1, 0, 'C' },
     { "jobs", 1, 0, 'J' },
-    { "bindir", 1, 0, -1 },
+    { "bindir", 1, 0, -7 }, // -1 is the end of options
     { "libdir", 1, 0, -2 },
     { "includedir", 1, 0, -3 },
     { "pkgconfdir", 1, 0, -4 },
@@ -737,7 +737,7 @@ void autark_run(int argc, const char **argv) {
       case 'C':
         cdir = pool_strdup(g_env.pool, optarg);
         break;
-      case -1:
+      case -7:
         g_env.install.bin_dir = pool_strdup(g_env.pool, optarg);
         break;
       case -2:
-- 
2.43.0


From b00c5a5cdfb8575e6d60952ca80a939a4bf148db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:46 +0000
Subject: [PATCH 48/59] fix: job counts beyond int are limited, not truncated

---
 autark_core.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/autark_core.c b/autark_core.c
index 2dc1d17..369b11f 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -757,10 +757,11 @@ void autark_run(int argc, const char **argv) {
         break;
       case 'J': {
         int rc = 0;
-        g_env.max_parallel_jobs = utils_strtol(optarg, 10, &rc);
+        long int jobs = utils_strtol(optarg, 10, &rc);
         if (rc) {
           akfatal(AK_ERROR_FAIL, "Command line option -J,--jobs value: %s should be non negative number", optarg);
         }
+        g_env.max_parallel_jobs = jobs <= 0 ? 0 : MIN(jobs, 16);
         break;
       }
       case 'h':
-- 
2.43.0


From 982b449015926dde71fe7c535bc36956be9f7265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:46 +0000
Subject: [PATCH 49/59] fix: options behind the sources dir are read as the
 usage says

---
 autark_core.c | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 369b11f..4b3087d 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -675,10 +675,11 @@ const char* env_libdir(void) {
 #endif
 }
 
-void autark_run(int argc, const char **argv) {
-  akassert(argc > 0 && argv[0]);
-  autark_init();
+static bool _is_command(const char *arg) {
+  return strcmp(arg, "set") == 0 || strcmp(arg, "dep") == 0 || strcmp(arg, "env") == 0 || strcmp(arg, "glob") == 0;
+}
 
+static void _options_parse(int argc, const char **argv, struct ulist *options, const char **cdir, bool *version) {
   static const struct option long_options[] = {
     { "cache", 1, 0, 'H' },
     { "clean", 0, 0, 'c' },
@@ -699,10 +700,6 @@ void autark_run(int argc, const char **argv) {
     { 0 }
   };
 
-  bool version = false;
-  const char *cdir = 0;
-  struct ulist options = { .usize = sizeof(char*) };
-
   for (int ch; (ch = getopt_long(argc, (void*) argv, "+H:chVvlR:C:D:J:I", long_options, 0)) != -1; ) {
     switch (ch) {
       case 'H':
@@ -715,7 +712,7 @@ void autark_run(int argc, const char **argv) {
         g_env.project.cleanup = true;
         break;
       case 'v':
-        version = true;
+        *version = true;
         break;
       case 'l':
         if (!g_env.project.options) {
@@ -724,7 +721,7 @@ void autark_run(int argc, const char **argv) {
         break;
       case 'D': {
         char *p = pool_strdup(g_env.pool, optarg);
-        ulist_push(&options, &p);
+        ulist_push(options, &p);
         break;
       }
       case 'R':
@@ -735,7 +732,7 @@ void autark_run(int argc, const char **argv) {
         g_env.install.enabled = true;
         break;
       case 'C':
-        cdir = pool_strdup(g_env.pool, optarg);
+        *cdir = pool_strdup(g_env.pool, optarg);
         break;
       case -7:
         g_env.install.bin_dir = pool_strdup(g_env.pool, optarg);
@@ -769,6 +766,25 @@ void autark_run(int argc, const char **argv) {
         _usage(0);
     }
   }
+}
+
+void autark_run(int argc, const char **argv) {
+  akassert(argc > 0 && argv[0]);
+  autark_init();
+
+  bool version = false;
+  const char *cdir = 0;
+  struct ulist options = { .usize = sizeof(char*) };
+
+  _options_parse(argc, argv, &options, &cdir, &version);
+
+  if (optind < argc && !_is_command(argv[optind])) { // Root dir expected
+    g_env.project.root_dir = pool_strdup(g_env.pool, argv[optind++]);
+    _options_parse(argc, argv, &options, &cdir, &version); // Options may follow the root dir
+    if (optind < argc) {
+      _usage("Unexpected argument: %s", argv[optind]);
+    }
+  }
 
   if (version) {
     printf(META_VERSION "." META_REVISION);
@@ -850,8 +866,6 @@ void autark_run(int argc, const char **argv) {
     } else if (strcmp(arg, "glob") == 0) {
       _on_command_glob(argc, argv, cdir);
       return;
-    } else { // Root dir expected
-      g_env.project.root_dir = pool_strdup(g_env.pool, arg);
     }
   }
 
-- 
2.43.0


From d46ff9eb2c8549bed7f9b4e7e69cfadffe4d33f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:34 +0000
Subject: [PATCH 50/59] fix: script text in messages is not taken as a format

---
 node_error.c | 2 +-
 script.c     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/node_error.c b/node_error.c
index 5635d6d..28bf380 100644
--- a/node_error.c
+++ b/node_error.c
@@ -14,7 +14,7 @@ static void _error_setup(struct node *n) {
       xstr_cat(xstr, node_value(nn));
     }
   }
-  node_fatal(AK_ERROR_FAIL, n, xstr_ptr(xstr));
+  node_fatal(AK_ERROR_FAIL, n, "%s", xstr_ptr(xstr));
 }
 
 int node_error_setup(struct node *n) {
diff --git a/script.c b/script.c
index 154f593..6f10297 100644
--- a/script.c
+++ b/script.c
@@ -136,7 +136,7 @@ void node_info(struct node *n, const char *fmt, ...) {
     va_end(ap);
     akinfo("%s: %s", n->name, xstr_ptr(xstr));
   } else {
-    akinfo(n->name, 0);
+    akinfo("%s", n->name);
   }
   xstr_destroy(xstr);
 }
@@ -150,7 +150,7 @@ void node_warn(struct node *n, const char *fmt, ...) {
     va_end(ap);
     akwarn("%s: %s", n->name, xstr_ptr(xstr));
   } else {
-    akinfo(n->name, 0);
+    akwarn("%s", n->name);
   }
   xstr_destroy(xstr);
 }
@@ -164,7 +164,7 @@ void node_fatal(int rc, struct node *n, const char *fmt, ...) {
     va_end(ap);
     akfatal(rc, "%s %s", n->name, xstr_ptr(xstr));
   } else {
-    akfatal(rc, n->name, 0);
+    akfatal(rc, "%s", n->name);
   }
   xstr_destroy(xstr);
 }
-- 
2.43.0


From 2079d4ec3c79d5e8a339124936088cd1e5c45603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:34 +0000
Subject: [PATCH 51/59] fix: a syntax error does not write behind the script
 buffer

---
 script.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/script.c b/script.c
index 6f10297..350a7a9 100644
--- a/script.c
+++ b/script.c
@@ -14,7 +14,6 @@ static void _yyerror(yycontext *yy) {
   }
   if (yy->__pos < yy->__limit) {
     char buf[2] = { 0 };
-    yy->__buf[yy->__limit] = '\0';
     xstr_cat(xerr, "\n");
     while (yy->__pos < yy->__limit) {
       buf[0] = yy->__buf[yy->__pos++];
-- 
2.43.0


From 26471ac05898e0462f0ea68a0bc0364f66440318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:34 +0000
Subject: [PATCH 52/59] fix: blank lines before a comment are not part of it

---
 script.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script.c b/script.c
index 350a7a9..3020536 100644
--- a/script.c
+++ b/script.c
@@ -337,7 +337,7 @@ static void _preprocess_script(struct value *v) {
       comment = false;
     } else if (eol) {
       const char *sp = p;
-      while (utils_char_is_space(*sp)) {
+      while (*sp != '\n' && utils_char_is_space(*sp)) {
         ++sp;
       }
       if (*sp == '#') {
-- 
2.43.0


From 1307d2f6a85773bb9631afb3cc2ebbe0d7406d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:34 +0000
Subject: [PATCH 53/59] fix: macro arguments used in turn stay within their
 limit

---
 node_call.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node_call.c b/node_call.c
index 57cf65b..4b1183b 100644
--- a/node_call.c
+++ b/node_call.c
@@ -65,8 +65,11 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
       ret = INT_MAX;
       idx--;
     } else {
-      call->arg_idx++;
-      idx = call->arg_idx;
+      idx = call->arg_idx + 1;
+      if (idx >= MACRO_MAX_ARGS_NUM) {
+        node_fatal(rc, n, "Invalid macro arg index: %d", idx + 1);
+        return 0;
+      }
     }
     call->arg_idx = idx;
     n = call->args[idx];
-- 
2.43.0


From d7b8cf5343dfb7a45f3a6923010c65fc1f6ae276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:00 +0000
Subject: [PATCH 54/59] fix: negated conditions stay negated in macros

---
 script.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script.c b/script.c
index 3020536..a4fe9b6 100644
--- a/script.c
+++ b/script.c
@@ -218,7 +218,7 @@ struct node* node_clone_and_register(struct node *n_) {
   struct xnode *n = (struct xnode*) n_;
   struct xnode *x = pool_calloc(g_env.pool, sizeof(*x));
   *x = *n;
-  x->base.flags = 0;
+  x->base.flags = n->base.flags & NODE_FLG_NEGATE;
   x->base.child = 0;
   x->base.next = 0;
   x->base.parent = 0;
-- 
2.43.0


From 66ec2a82b3b32965ea03dc92b13de32cabbcabc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:00 +0000
Subject: [PATCH 55/59] fix: rules passed as macro arguments keep their content

---
 node_call.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/node_call.c b/node_call.c
index 4b1183b..f97c0a4 100644
--- a/node_call.c
+++ b/node_call.c
@@ -38,9 +38,21 @@ struct node* call_first_node(struct node *n) {
   }
 }
 
+static void _call_clone_children(struct node *n, struct node *nn) {
+  struct node **next = &nn->child;
+  for (struct node *c = n->child; c; c = c->next) {
+    struct node *cc = node_clone_and_register(c);
+    cc->parent = nn;
+    *next = cc;
+    next = &cc->next;
+    _call_clone_children(c, cc);
+  }
+}
+
 static int _call_macro_visit(struct node *n, int lvl, void *d) {
   struct _call *call = d;
   int ret = 0;
+  bool arg = false;
 
   if (call->mn == n /*skip macro itself */ || call->mn->child == n /* skip macro name */) {
     return 0;
@@ -73,6 +85,7 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
     }
     call->arg_idx = idx;
     n = call->args[idx];
+    arg = true;
     if (!n) {
       node_fatal(rc, call->n, "Call argument: %d for macro: %s is not set", (idx + 1), call->key);
       return 0;
@@ -85,6 +98,9 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
   }
   struct node *nn = node_clone_and_register(n);
   nn->parent = parent;
+  if (arg) {
+    _call_clone_children(n, nn);
+  }
 
   // Add node to the parent
   if (!parent->child) {
-- 
2.43.0


From 0f2c7c903b612fda9f9d49b441fc03dc927fd782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:00 +0000
Subject: [PATCH 56/59] fix: calls of empty macros

---
 node_call.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_call.c b/node_call.c
index f97c0a4..d0fbeb4 100644
--- a/node_call.c
+++ b/node_call.c
@@ -162,7 +162,7 @@ static void _call_init(struct node *n) {
   ulist_push(&call->nodes, &n->parent);
   _call_remove(n);
   node_visit(mn, 1, call, _call_macro_visit);
-  for (int i = call->nn_idx; i < n->ctx->nodes.num; ++i) {
+  for (int i = call->nn_idx; i > -1 && i < n->ctx->nodes.num; ++i) {
     struct node *nn = *(struct node**) ulist_get(&n->ctx->nodes, i);
     node_bind(nn);
   }
-- 
2.43.0


From cc123a29b0ba7293fd1dbc835993106ce7cb525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:10 +0000
Subject: [PATCH 57/59] fix: macro body takes the place of its call

---
 node_call.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/node_call.c b/node_call.c
index d0fbeb4..6e46b9e 100644
--- a/node_call.c
+++ b/node_call.c
@@ -11,7 +11,7 @@ struct _call {
   const char  *key;    ///< Macro name
   struct node *n;      ///< Call Parent node
   struct node *mn;     ///< Macro node
-  struct node *prev;   ///< Call Prev node
+  struct node *prev;   ///< Node before the place of the call
   struct node *cloned; ///< Macro cloned node
   struct ulist nodes;  ///< Nodes stack. struct node*
   struct node *args[MACRO_MAX_ARGS_NUM];
@@ -103,7 +103,16 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
   }
 
   // Add node to the parent
-  if (!parent->child) {
+  if (parent == call->n->parent) { // At the place of the call
+    if (call->prev) {
+      nn->next = call->prev->next;
+      call->prev->next = nn;
+    } else {
+      nn->next = parent->child;
+      parent->child = nn;
+    }
+    call->prev = nn;
+  } else if (!parent->child) {
     parent->child = nn;
   } else {
     struct node *c = parent->child;
-- 
2.43.0


From 39c12adbeb1801fad54b50a08aeb8ee7bd47d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:10 +0000
Subject: [PATCH 58/59] fix: command output printed before a fatal error is not
 lost

---
 log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/log.c b/log.c
index 1c49016..f65a7f3 100644
--- a/log.c
+++ b/log.c
@@ -129,6 +129,7 @@ void akfatal2(const char *msg) {
     fputs(msg, stderr);
     fputc('\n', stderr);
   }
+  fflush(stdout); // Output of commands passed on so far
   _exit(254);
 }
 
-- 
2.43.0


From 4d758656f296cb0879e400b3a96666e96b87cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:10 +0000
Subject: [PATCH 59/59] fix: output of commands is passed on byte for byte

---
 node_check.c | 4 ++--
 node_run.c   | 4 ++--
 node_subst.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/node_check.c b/node_check.c
index 1b57d6b..a4e0e0b 100644
--- a/node_check.c
+++ b/node_check.c
@@ -13,11 +13,11 @@
 #endif
 
 static void _check_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stdout, "%s", buf);
+  fwrite(buf, 1, buflen, stdout);
 }
 
 static void _check_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stderr, "%s", buf);
+  fwrite(buf, 1, buflen, stderr);
 }
 
 static void _check_on_env_value(struct node_resolve *nr, const char *key, const char *val) {
diff --git a/node_run.c b/node_run.c
index b731c9a..0bb0482 100644
--- a/node_run.c
+++ b/node_run.c
@@ -18,11 +18,11 @@ struct _run_spawn_data {
 };
 
 static void _run_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stdout, "%s", buf);
+  fwrite(buf, 1, buflen, stdout);
 }
 
 static void _run_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stderr, "%s", buf);
+  fwrite(buf, 1, buflen, stderr);
 }
 
 struct _run_on_resolve_ctx {
diff --git a/node_subst.c b/node_subst.c
index 3d2ed58..905e926 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -61,13 +61,13 @@ struct _subst_ctx {
 };
 
 static void _subst_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stderr, "%s", buf);
+  fwrite(buf, 1, buflen, stderr);
 }
 
 static void _subst_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
   struct _subst_ctx *ctx = spawn_user_data(s);
   xstr_cat2(ctx->xstr, buf, buflen);
-  fprintf(stdout, "%s", buf);
+  fwrite(buf, 1, buflen, stdout);
 }
 
 // Output of a command which depends on the current item of `foreach` must not be kept
-- 
2.43.0

