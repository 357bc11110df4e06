From db62a1e8a67ed462db77e027e908230168df280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:04 +0000
Subject: [PATCH 01/18] fix: compute the prefetch memory budget in 64 bits

kb() truncated the size of a map to int and the budget sums overflowed int
with 1 TB or more of memory, so that maps beyond the documented memory limits
were prefetched.
---
 preload-src/src/algorithm/prophet.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/preload-src/src/algorithm/prophet.c b/preload-src/src/algorithm/prophet.c
index 270df5c..8a8d078 100644
--- a/preload-src/src/algorithm/prophet.c
+++ b/preload-src/src/algorithm/prophet.c
@@ -194,7 +194,7 @@ map_prob_print (preload_map_t *map)
 
 #define clamp_percent(v) ((v)>100 ? 100 : (v) < -100 ? -100 : (v))
 #define max(a,b) ((a)>(b) ? (a) : (b))
-#define kb(v) ((int)(((v) + 1023) / 1024))
+#define kb(v) ((gint64)(((v) + 1023) / 1024))
 
 /* input is the list of maps sorted on the need.
  * decide a cutoff based on memory conditions and readhead. */
@@ -202,7 +202,7 @@ void
 preload_prophet_readahead (GPtrArray *maps_arr)
 {
   int i;
-  int memavail, memavailtotal; /* in kilobytes */
+  gint64 memavail, memavailtotal; /* in kilobytes */
   preload_memory_t memstat;
   preload_map_t *map;
 
@@ -229,21 +229,21 @@ preload_prophet_readahead (GPtrArray *maps_arr)
     memavail = memstat.available;
     
     /* Apply configured percentage (can be negative to reserve memory) */
-    memavail = clamp_percent(conf->model.memtotal) * (memstat.total / 100)
-             + clamp_percent(conf->model.memfree)  * (memavail / 100);
+    memavail = (gint64)clamp_percent(conf->model.memtotal) * (memstat.total / 100)
+             + (gint64)clamp_percent(conf->model.memfree)  * (memavail / 100);
   } else {
     /* Fallback for older kernels */
-    memavail  = clamp_percent(conf->model.memtotal)  * (memstat.total  / 100)
-              + clamp_percent(conf->model.memfree)   * (memstat.free   / 100);
+    memavail  = (gint64)clamp_percent(conf->model.memtotal)  * (memstat.total  / 100)
+              + (gint64)clamp_percent(conf->model.memfree)   * (memstat.free   / 100);
   }
   
   memavail  = max (0, memavail);
   
   /* Add configured portion of cached memory */
-  memavail += clamp_percent(conf->model.memcached) * (memstat.cached / 100);
+  memavail += (gint64)clamp_percent(conf->model.memcached) * (memstat.cached / 100);
   
   /* Add configured portion of buffers memory */
-  memavail += clamp_percent(conf->model.membuffers) * (memstat.buffers / 100);
+  memavail += (gint64)clamp_percent(conf->model.membuffers) * (memstat.buffers / 100);
 
   memavailtotal = memavail;
 
@@ -262,7 +262,7 @@ preload_prophet_readahead (GPtrArray *maps_arr)
       map_prob_print (map);
   }
 
-  g_debug ("%dkb available for preloading, using %dkb of it",
+  g_debug ("%" G_GINT64_FORMAT "kb available for preloading, using %" G_GINT64_FORMAT "kb of it",
 	   memavailtotal, memavailtotal - memavail);
 
   if (i) {
-- 
2.43.0


From 20d766df1bcaeff99d762b7aec61354dc82ae805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:04 +0000
Subject: [PATCH 02/18] fix: do not shrink a merged readahead request

A map that lies within the previous one of the same file replaced the merged
length by its own end, and the rest of the previous map was never read.
---
 preload-src/src/handling/readahead.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index c229e14..ef1dbca 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -310,8 +310,8 @@ preload_readahead (preload_map_t **files, int file_count)
 	  offset + length >= files[i]->offset &&
 	  0 == strcmp (path, files[i]->path))
         {
-	  /* merge requests */
-	  length = files[i]->offset + files[i]->length - offset;
+	  /* merge requests; the next one may lie within what we have */
+	  length = MAX (length, files[i]->offset + files[i]->length - offset);
 	  continue;
 	}
 
-- 
2.43.0


From 1935edf93895aeb2a16bfdbd4d0e835cecf499ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:04 +0000
Subject: [PATCH 03/18] fix: keep the disk block found by FIBMAP

The inode fallback was unconditional, so that sortstrategy 3 (SORT_BLOCK)
sorted on inodes.
---
 preload-src/src/handling/readahead.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index ef1dbca..310af2a 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -64,7 +64,8 @@ set_block(preload_map_t *file, gboolean use_inode)
 #endif
 
   /* fall back to inode number */
-  block = buf.st_ino;
+  if (!block)
+    block = buf.st_ino;
 
   file->block = block;
 
-- 
2.43.0


From 7a5ecb3f4a37abfc60fef3989bc7c8477719c2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:40 +0000
Subject: [PATCH 04/18] fix: read the whole path of a mapped file

The %s conversion stopped at the first blank: a path with a blank was recorded
truncated and the kernel's ' (deleted)' suffix was never seen, so that deleted
files were recorded as if they still existed.
---
 preload-src/src/monitoring/proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 8afe5c4..6ff677e 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -111,7 +111,7 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
       long start = 0, end = 0, offset = 0, length = 0;
       int count;
 
-      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %"FILELENSTR"s",
+      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %"FILELENSTR"[^\n]",
 		      &start, &end, &offset, file);
 
       if (count != 4 || !sanitize_file (file) || !accept_file (file, conf->system.mapprefix))
-- 
2.43.0


From a87d017ae48ab26b0b6fa31b898ad3da533f8e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 05/18] fix: do not abort on contradicting running times

---
 preload-src/src/algorithm/markov.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/markov.c b/preload-src/src/algorithm/markov.c
index 437784d..21391ac 100644
--- a/preload-src/src/algorithm/markov.c
+++ b/preload-src/src/algorithm/markov.c
@@ -181,7 +181,9 @@ preload_markov_correlation (preload_markov_t *markov)
     correlation = numerator / sqrt (denominator2);
   }
   
-  g_assert (fabs (correlation) <= 1.00001);
+  /* times that contradict each other (damaged state file) show nothing */
+  if (!(fabs (correlation) <= 1.00001))
+    correlation = 0;
   return correlation;
 }
 
-- 
2.43.0


From 5a99eb78f71088734c253c77a0f02df960252ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 06/18] fix: limit the depth of the VOMM prediction tree

Nothing enforced the documented maximum: the context moved one level
deeper with every launch, so the tree grew without bound and the
recursive export and cleanup with it.
---
 preload-src/src/algorithm/vomm.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 77d6d06..c56f604 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -88,6 +88,16 @@ void vomm_cleanup(void) {
  */
 #define MAX_VOMM_DEPTH 5
 
+/* Helper: Length of the path from the root to a node */
+static guint vomm_node_depth(const vomm_node_t *node) {
+    guint depth = 0;
+    while (node && node->parent) {
+        node = node->parent;
+        depth++;
+    }
+    return depth;
+}
+
 void vomm_update(preload_exe_t *exe) {
     if (!exe) return;
     
@@ -113,7 +123,8 @@ void vomm_update(preload_exe_t *exe) {
        In a "pure" VOMM we'd insert all suffixes, but here we act more like a PST/PSA. */
     
     /* Reset to root if we are too deep or lost */
-    if (!vomm_system.current_context) {
+    if (!vomm_system.current_context ||
+        vomm_node_depth(vomm_system.current_context) >= MAX_VOMM_DEPTH) {
         vomm_system.current_context = vomm_system.root;
     }
 
-- 
2.43.0


From 7c81ef6a157b8a9fb42a72c30b7f7de61825aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 07/18] fix: bid log(1 - confidence) in VOMM predictions

lnprob is the log-probability of a program NOT being needed.  Adding
log(confidence) made the rarest successors the most wanted ones and the
certain ones worthless, and the fallback boost voted against the program.
---
 preload-src/src/algorithm/vomm.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index c56f604..c723311 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -197,11 +197,11 @@ static void predict_ppm(vomm_node_t *node) {
         
         double child_conf = (double)child->count / total_children_calls;
         
-        /* Clamp child_conf to a safe range to avoid log(0) */
-        const double epsilon = 1e-9;
-        child_conf = fmax(epsilon, fmin(1.0 - epsilon, child_conf));
+        /* Cap child_conf to avoid log(0) */
+        child_conf = fmin(0.99, child_conf);
         
-        child->exe->lnprob += log(child_conf);
+        /* lnprob is the log-probability of NOT being needed */
+        child->exe->lnprob += log(1.0 - child_conf);
         g_debug("[VOMM] PPM Prediction: Bidding on %s (conf: %.4f)", child->exe->path, child_conf);
     }
 }
@@ -225,9 +225,9 @@ static void predict_dg_fallback(vomm_node_t *node) {
         
         if (child->count > 0) {
              /* Weak bid for all neighbors */
-             /* Add a small probability boost */
-             child->exe->lnprob += log(1.1);
-             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob += %f)", child->exe->path, log(1.1));
+             /* Add a small probability boost (lnprob is of NOT being needed) */
+             child->exe->lnprob -= log(1.1);
+             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob -= %f)", child->exe->path, log(1.1));
         }
     }
 }
-- 
2.43.0


From 9117d596ab0c4b9b37509cd665aef11aad6a16dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 08/18] fix: forget a removed program everywhere

preload_state_unregister_exe freed programs that the VOMM tree, its history
or the pending changes of the last scan still referred to.
---
 preload-src/src/algorithm/vomm.c | 35 ++++++++++++++++++++++++++++++++
 preload-src/src/algorithm/vomm.h |  8 +++++++-
 preload-src/src/handling/exe.c   |  6 ++++++
 preload-src/src/monitoring/spy.c |  8 ++++++++
 preload-src/src/monitoring/spy.h |  2 ++
 5 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index c723311..8ac5371 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -164,6 +164,41 @@ void vomm_update(preload_exe_t *exe) {
     }
 }
 
+/* Helper: Remove every node of an executable below a node */
+static void vomm_node_forget_exe(vomm_node_t *node, preload_exe_t *exe) {
+    GHashTableIter iter;
+    gpointer key, value;
+
+    g_hash_table_iter_init(&iter, node->children);
+    while (g_hash_table_iter_next(&iter, &key, &value)) {
+        vomm_node_t *child = (vomm_node_t*)value;
+
+        if (child->exe == exe)
+            g_hash_table_iter_remove(&iter);
+        else
+            vomm_node_forget_exe(child, exe);
+    }
+}
+
+void vomm_forget_exe(preload_exe_t *exe) {
+    vomm_node_t *node;
+
+    if (!exe || !vomm_system.root) return;
+
+    /* The context must not point into a removed part of the tree */
+    for (node = vomm_system.current_context; node; node = node->parent) {
+        if (node->exe == exe) {
+            vomm_system.current_context = vomm_system.root;
+            break;
+        }
+    }
+
+    vomm_node_forget_exe(vomm_system.root, exe);
+
+    vomm_system.history = g_list_remove_all(vomm_system.history, exe);
+    vomm_system.history_length = g_list_length(vomm_system.history);
+}
+
 /* PPM Prediction Logic */
 static void predict_ppm(vomm_node_t *node) {
     GHashTableIter iter;
diff --git a/preload-src/src/algorithm/vomm.h b/preload-src/src/algorithm/vomm.h
index 18e552c..19be87f 100644
--- a/preload-src/src/algorithm/vomm.h
+++ b/preload-src/src/algorithm/vomm.h
@@ -27,11 +27,17 @@ void vomm_cleanup(void);
  * Updates the VOMM model with a new execution event.
  * Adds the sequence to the tree and updates frequencies.
  *
- * This function stores the exe pointer; caller must ensure exe remains valid until vomm_cleanup.
+ * This function stores the exe pointer; caller must ensure exe remains valid until vomm_cleanup
+ * or vomm_forget_exe.
  * If exe is NULL, the function returns immediately.
  */
 void vomm_update(preload_exe_t *exe);
 
+/* 
+ * Drops every reference to an executable that is about to be freed.
+ */
+void vomm_forget_exe(preload_exe_t *exe);
+
 /* 
  * Predicts the next likely files to be needed based on the current context.
  * Uses Hybrid approach:
diff --git a/preload-src/src/handling/exe.c b/preload-src/src/handling/exe.c
index 88983d4..682a676 100644
--- a/preload-src/src/handling/exe.c
+++ b/preload-src/src/handling/exe.c
@@ -26,6 +26,8 @@
 #include "map.h"
 #include "markov.h"
 #include "state.h"
+#include "spy.h"
+#include "vomm.h"
 
 
 /* Check if executable is currently running */
@@ -178,6 +180,10 @@ preload_state_unregister_exe (preload_exe_t *exe)
   g_return_if_fail (exe && exe->path);
   g_return_if_fail (g_hash_table_lookup (state->exes, exe->path));
 
+  /* nobody may refer to exe any longer */
+  preload_spy_forget_exe (exe);
+  vomm_forget_exe (exe);
+
   g_hash_table_steal (state->exes, exe->path);
 
   preload_exe_free (exe);
diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index b29dfc2..edc3b7e 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -191,6 +191,14 @@ preload_spy_scan (gpointer data)
   new_running_exes = NULL;  /* Break alias to prevent use-after-free on next scan */
 }
 
+/* an exe may be removed from the model between scan and update_model */
+void
+preload_spy_forget_exe (preload_exe_t *exe)
+{
+  state_changed_exes = g_slist_remove_all (state_changed_exes, exe);
+  state->running_exes = g_slist_remove_all (state->running_exes, exe);
+}
+
 /* update_model is run after scan, after some delay (half a cycle) */
 
 void
diff --git a/preload-src/src/monitoring/spy.h b/preload-src/src/monitoring/spy.h
index 2d7f366..9e9430c 100644
--- a/preload-src/src/monitoring/spy.h
+++ b/preload-src/src/monitoring/spy.h
@@ -2,8 +2,10 @@
 #define SPY_H
 
 #include <glib.h>
+#include "exe.h"
 
 void preload_spy_scan (gpointer data);
 void preload_spy_update_model (gpointer data);
+void preload_spy_forget_exe (preload_exe_t *exe);
 
 #endif
-- 
2.43.0


From a80f65582afdc4a15267cfe15c425c34b8808618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 09/18] fix: do not replace the state file by an incompletely
 written one

The last part of the text is written when the channel is flushed; errors
of the implicit flush in g_io_channel_unref are lost.
---
 preload-src/src/handling/state_io.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 226c29f..4ff7110 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -644,6 +644,7 @@ preload_state_write_file (const char *statefile)
   GIOChannel *f;
   char *tmpfile;
   char *errmsg = NULL;
+  GError *err = NULL;
 
   if (!statefile || !*statefile)
     return NULL;
@@ -669,6 +670,11 @@ preload_state_write_file (const char *statefile)
 
   f = g_io_channel_unix_new (fd);
   errmsg = write_state (f);
+  /* unref flushes too, but reports no error */
+  if (!errmsg && G_IO_STATUS_NORMAL != g_io_channel_flush (f, &err)) {
+    errmsg = g_strdup_printf ("cannot write %s: %s", tmpfile, err ? err->message : "incomplete");
+    g_clear_error (&err);
+  }
   g_io_channel_unref (f);
   
   if (errmsg) {
-- 
2.43.0


From d971c17f8c6ee2836c805bdbfc38aa7be0ce0482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 10/18] fix: read state records with long paths

A URI spends three characters on many bytes, so the URI of a path of 200
bytes may not fit in 511 characters and was cut, silently or in the middle
of an escape sequence.
---
 preload-src/src/handling/state_io.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 4ff7110..a6d917f 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -66,24 +66,33 @@ typedef struct _read_context_t
 
 
 
+/* the path of the URI that a record ends in, of whatever length */
+static char *
+read_uri (char *uri, GError **err)
+{
+  uri[strcspn (uri, " \t\r\n")] = '\0';
+  return g_filename_from_uri (uri, NULL, err);
+}
+
+
 static void
 read_map (read_context_t *rc)
 {
   preload_map_t *map;
   gint64 i;
-  int expansion;
+  int expansion, n = 0;
   long offset, length;
   char *path;
   long long t_update_time;
 
-  if (6 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %"FILELENSTR"s",
-		  &i, &t_update_time, &offset, &length, &expansion, rc->filebuf)) {
+  if (5 > sscanf (rc->line,
+		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %n",
+		  &i, &t_update_time, &offset, &length, &expansion, &n) || !n || !rc->line[n]) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
   }
 
-  path = g_filename_from_uri (rc->filebuf, NULL, &(rc->err));
+  path = read_uri (rc->line + n, &(rc->err));
   if (!path)
     return;
 
@@ -143,7 +152,7 @@ read_exe (read_context_t *rc)
   preload_exe_t *exe;
 
   gint64 i;
-  int expansion;
+  int expansion, n = 0;
   char *path;
 
   // Assuming file format uses int or long for time_t, we need to read it into a compatible type or cast
@@ -153,14 +162,14 @@ read_exe (read_context_t *rc)
   // Let's use temporary variables for scanning to be safe against size mismatches.
   long long t_update_time, t_time;
 
-  if (5 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lld %d %"FILELENSTR"s",
-		  &i, &t_update_time, &t_time, &expansion, rc->filebuf)) {
+  if (4 > sscanf (rc->line,
+		  "%" G_GINT64_FORMAT " %lld %lld %d %n",
+		  &i, &t_update_time, &t_time, &expansion, &n) || !n || !rc->line[n]) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
   }
 
-  path = g_filename_from_uri (rc->filebuf, NULL, &(rc->err));
+  path = read_uri (rc->line + n, &(rc->err));
   if (!path)
     return;
 
-- 
2.43.0


From 9abda5fb0bb5d1bbb6db04880b01f62dbadc7153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 11/18] fix: reject a MARKOV record of a program with itself

preload_markov_new returns NULL for it, which was dereferenced.
---
 preload-src/src/handling/state_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index a6d917f..04ea58e 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -245,7 +245,7 @@ read_markov (read_context_t *rc)
 
   a = g_hash_table_lookup (rc->exes, (gpointer)ia);
   b = g_hash_table_lookup (rc->exes, (gpointer)ib);
-  if (!a || !b) {
+  if (!a || !b || a == b) {
     rc->errmsg = READ_INDEX_ERROR;
     return;
   }
-- 
2.43.0


From 6e057f1b06126388a68aba7837324c8ecf1f8b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 12/18] fix: skip invalid and duplicate VOMM nodes of a state
 file

A second child for the same program freed the first one while its id (and
those of its children) still referred to it; an id of 0 replaced the root.
---
 preload-src/src/algorithm/vomm.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 8ac5371..b23f86c 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -535,6 +535,14 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         return;
     }
 
+    if (count < 0 || id != (gint)id ||
+        g_hash_table_lookup(import_node_map, GINT_TO_POINTER((gint)id)) ||
+        g_hash_table_lookup(parent_node->children, exe->path)) {
+        /* Replacing a node would free it while its id still refers to it */
+        g_warning("[VOMM] Invalid or duplicate node id=%" G_GINT64_FORMAT ". Skipping.", id);
+        return;
+    }
+
     /* Create the node */
     vomm_node_t *node = vomm_node_new(exe, parent_node);
     node->count = count;
-- 
2.43.0


From 3708f6a220ec048789a2ef739fbf41a688a37ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 13/18] fix: keep the VOMM model of the state file

preload_state_run initialised the model again, which dropped (and leaked)
the tree just loaded; every restart forgot what was learned.
---
 preload-src/src/algorithm/vomm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index b23f86c..d2054d0 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -58,6 +58,9 @@ static void vomm_node_free(gpointer data) {
 }
 
 gboolean vomm_init(void) {
+    /* Keep a model loaded from the state file */
+    if (vomm_system.root) return TRUE;
+
     g_debug("[VOMM] Initializing Algorithm...");
     /* Root represents the empty context */
     vomm_system.root = vomm_node_new(NULL, NULL);
@@ -386,6 +389,9 @@ void vomm_predict(void) {
 void vomm_hydrate_from_state(void) {
     if (!vomm_system.root) return;
     
+    /* A loaded model has counted these transitions already */
+    if (g_hash_table_size(vomm_system.root->children) > 0) return;
+
     g_debug("[VOMM] Hydrating from legacy Markov state...");
     int hydrated_count = 0;
     
-- 
2.43.0


From 84b9d02c705a33e857e48e18f0c2191a516ae6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 14/18] fix: list a program once when several processes run it
 at startup

Every further process was another entry of the running list and another
launch for the sequence model.
---
 preload-src/src/handling/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 04adadd..f67a811 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -59,7 +59,7 @@ set_running_process_callback (gpointer key, gpointer value, gpointer user_data)
   preload_exe_t *exe;
 
   exe = g_hash_table_lookup (state->exes, path);
-  if (exe) {
+  if (exe && !g_slist_find (state->running_exes, exe)) {
     exe->running_timestamp = time;
     state->running_exes = g_slist_prepend (state->running_exes, exe);
     
-- 
2.43.0


From 9e7a0d5dd420bcd7bce21522d4cf4831bedebd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 15/18] fix: measure the first stay of a loaded pair from the
 start

The time stamp of loaded pairs was 0, so the first change of state averaged
the whole age of the model into the mean stay.  A change in the very moment
of the load is now counted: the pair is taken care of only when its state
is the current one.
---
 preload-src/src/algorithm/markov.c | 6 +++---
 preload-src/src/handling/state.c   | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/algorithm/markov.c b/preload-src/src/algorithm/markov.c
index 21391ac..1e7fc60 100644
--- a/preload-src/src/algorithm/markov.c
+++ b/preload-src/src/algorithm/markov.c
@@ -87,12 +87,12 @@ preload_markov_state_changed (preload_markov_t *markov)
 {
   int old_state, new_state;
 
-  if (markov->change_timestamp == state->time)
-    return; /* already taken care of */
-
   old_state = markov->state;
   new_state = markov_compute_state (markov);
 
+  if (markov->change_timestamp == state->time && old_state == new_state)
+    return; /* already taken care of */
+
   g_return_if_fail (old_state != new_state);
 
   markov->weight[old_state][old_state]++;
diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index f67a811..f275ed2 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -46,6 +46,7 @@ update_markov_state_callback (gpointer data, gpointer G_GNUC_UNUSED user_data)
 {
   preload_markov_t *markov = (preload_markov_t *)data;
   markov->state = markov_compute_state (markov);
+  markov->change_timestamp = state->time; /* not observed before */
 }
 
 static void
-- 
2.43.0


From 9ab89e1b35e0df0c2bfa4293a14d808de62b492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 16/18] fix: account for the whole slowed down cycle on battery

The next half cycle was scheduled two cycles later but the time of the
model advanced by one only.
---
 preload-src/src/handling/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index f275ed2..778333e 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -201,7 +201,7 @@ preload_state_tick (gpointer data)
   if (preload_on_battery()) {
       g_debug("Running on battery. Skipping IO intensive operations and slowing down cycle.");
       /* Increase cycle time to save power (double the normal cycle) */
-      state->time += conf->model.cycle; 
+      state->time += conf->model.cycle * 2;
       g_timeout_add_seconds (conf->model.cycle * 2, preload_state_tick2, data);
       return FALSE;
   }
-- 
2.43.0


From 34dbbc07930b14464143282f5e3910247d0cfa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 17/18] fix: read the number of processes from the
 configuration

The documentation and preload.conf call the option "processes", but only
"maxprocs" was looked up, so the setting never had an effect.
---
 preload-src/src/config/conf.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index ab6ed91..410dbb8 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -68,6 +68,13 @@ preload_conf_load (const char *conffile, gboolean fail)
 	return;
       }
 
+      /* maxprocs is called "processes" in preload.conf */
+      if (g_key_file_has_key (f, "system", "processes", NULL)) {
+	char *value = g_key_file_get_value (f, "system", "processes", NULL);
+	g_key_file_set_value (f, "system", "maxprocs", value);
+	g_free (value);
+      }
+
 #define get_integer(grp, key, unit) (unit * g_key_file_get_integer (f, grp, key, &e))
 #define get_enum(grp, key, unit) (g_key_file_get_integer (f, grp, key, &e))
 #define get_boolean(grp, key, unit) g_key_file_get_boolean (f, grp, key, &e)
-- 
2.43.0


From f28dc23636e0a893562edd5e094682b8663f0a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 18/18] fix: saturate memory statistics

Counters of machines with terabytes of memory do not fit in an int, and the
paging counters overflowed after 512 GB of reads.
---
 preload-src/src/monitoring/proc.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 6ff677e..a4b6479 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -216,6 +216,13 @@ proc_foreach (GHFunc func, gpointer user_data)
 
 
 
+/* counters of large machines do not fit in an int */
+static int
+saturate (gint64 n)
+{
+  return (int) CLAMP (n, 0, G_MAXINT);
+}
+
 #define open_file(filename) G_STMT_START {			\
 	  int fd, len;						\
 	  len = 0;						\
@@ -229,14 +236,20 @@ proc_foreach (GHFunc func, gpointer user_data)
 
 #define read_tag(tag, v) G_STMT_START {				\
 	  const char *b;					\
+	  gint64 n;						\
 	  b = strstr(buf, tag" ");				\
-	  if (b) sscanf(b, tag" %d", &(v));			\
+	  if (b && 1 == sscanf(b, tag" %" G_GINT64_FORMAT, &n))	\
+	    v = saturate (n);					\
 	} G_STMT_END
 
 #define read_tag2(tag, v1, v2) G_STMT_START {			\
 	  const char *b;					\
+	  gint64 n, m;						\
 	  b = strstr(buf, tag" ");				\
-	  if (b) sscanf(b, tag" %d %d", &(v1), &(v2));		\
+	  if (b && 2 == sscanf(b, tag" %" G_GINT64_FORMAT " %" G_GINT64_FORMAT, &n, &m)) { \
+	    v1 = saturate (n);					\
+	    v2 = saturate (m);					\
+	  }							\
 	} G_STMT_END
 
 void
@@ -274,14 +287,15 @@ proc_get_memstat (preload_memory_t *mem)
     read_tag2 ("page", mem->pagein, mem->pageout);
   }
 
-  mem->pagein *= pagesize / 1024;
-  mem->pageout *= pagesize / 1024;
+  mem->pagein = saturate ((gint64) mem->pagein * (pagesize / 1024));
+  mem->pageout = saturate ((gint64) mem->pageout * (pagesize / 1024));
 
   /* Fallback for MemAvailable (pre Linux 3.14) */
   if (!mem->available && mem->free) {
     /* Approximate: free + (cached - min cache) + (buffers portion) 
      * This is a rough estimate; kernel's calculation is more complex */
-    mem->available = mem->free + (mem->cached * 80 / 100) + (mem->buffers * 75 / 100);
+    mem->available = saturate ((gint64) mem->free + (gint64) mem->cached * 80 / 100
+			       + (gint64) mem->buffers * 75 / 100);
   }
 
   if (!mem->total || !mem->pagein)
-- 
2.43.0

