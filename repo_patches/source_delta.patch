From da5dbea6995a178d40435cd7dd0e8e788243f261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 01/24] fix: don't report combined attribute changes of
 implicit parent directories

---
 src/informations.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/informations.c b/src/informations.c
index eeb7101..872551d 100644
--- a/src/informations.c
+++ b/src/informations.c
@@ -196,7 +196,7 @@ static void addNode(const PathNode *node, ChangeSummary *changes,
   else if(node->hint > BH_unchanged &&
           (node->policy != BPOL_none ||
            (node->hint < BH_owner_changed ||
-            node->hint > BH_timestamp_changed)))
+            node->hint >= BH_content_changed)))
   {
     changes->other_changes_exist = true;
     changes->affects_parent_timestamp |=
@@ -547,7 +547,7 @@ static ChangeSummary recursePrintOverTree(const Metadata *metadata,
             !(node->policy == BPOL_none &&
               (node->hint == BH_added ||
                (node->hint >= BH_owner_changed &&
-                node->hint <= BH_timestamp_changed))))
+                node->hint < BH_content_changed))))
     {
       const bool print_subnodes =
         backupHintNoPol(node->hint) > BH_other_to_directory;
-- 
2.43.0


From 64bf509f34b79aae5b8c82dda14502d56d09dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 02/24] fix: report changes below directories which only
 changed their policy

---
 src/informations.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/informations.c b/src/informations.c
index 872551d..3a0326a 100644
--- a/src/informations.c
+++ b/src/informations.c
@@ -549,8 +549,11 @@ static ChangeSummary recursePrintOverTree(const Metadata *metadata,
                (node->hint >= BH_owner_changed &&
                 node->hint < BH_content_changed))))
     {
+      /* Subnodes of directories which only changed their policy must still
+         be printed. */
+      const BackupHint hint = backupHintNoPol(node->hint);
       const bool print_subnodes =
-        backupHintNoPol(node->hint) > BH_other_to_directory;
+        hint == BH_none || hint > BH_other_to_directory;
 
       summary =
         recursePrintOverTree(metadata, node->subnodes,
-- 
2.43.0


From 1d1bd7570f12dc59cd6d042c05e354d3399af2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 03/24] fix: record paths which exist again after a policy
 change wiped their history

---
 src/backup.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/backup.c b/src/backup.c
index 898f544..9e594d0 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -519,6 +519,17 @@ static SearchResultType initiateMetadataRecursively(
 
     metadata->total_path_count = sSizeAdd(metadata->total_path_count, 1);
   }
+  else if(backupHintNoPol(node->hint) == BH_not_part_of_repository)
+  {
+    /* The old history of this node was already wiped by a policy change of
+       its parent directory, but the path exists in the filesystem again. */
+    node->hint = BH_added;
+    node->policy = result.policy;
+    node->history =
+      buildPathHistoryPoint(allocator_pair->a, metadata, result);
+
+    metadata->total_path_count = sSizeAdd(metadata->total_path_count, 1);
+  }
   else
   {
     handleFoundNode(allocator_pair, metadata, node, result);
-- 
2.43.0


From 82509ca3c4ef0f59d1ff785d7e2215ddfd5f72a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 04/24] fix: record that an implicit parent path became a
 directory

---
 src/backup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index 9e594d0..f439a41 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -376,7 +376,7 @@ static void handleNodeChanges(AllocatorPair *allocator_pair,
   {
     applyNodeChanges(allocator_pair, node, state, result.stats);
   }
-  else if(result.policy != BPOL_none)
+  else if(result.policy != BPOL_none || result.type == SRT_directory)
   {
     setPathHistoryState(allocator_pair->a, state, result);
   }
-- 
2.43.0


From 1159012a0d178b4414ab322cf5cbe279db433b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 05/24] fix: don't follow symlinks standing in place of files
 to restore

---
 src/restore.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index 44f138d..2ca3cab 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -131,8 +131,9 @@ static void checkAndHandleChanges(AllocatorPair *allocator_pair,
 {
   if(could_exist && sPathExists(node->path))
   {
+    /* Only directories may be replaced by symlinks pointing to them. */
     const struct stat stats =
-      state->type == PST_symlink ? sLStat(node->path) : sStat(node->path);
+      state->type == PST_directory ? sStat(node->path) : sLStat(node->path);
 
     handleFiletypeChanges(node, state, stats);
     if(backupHintNoPol(node->hint) == BH_none)
-- 
2.43.0


From 35364010c2eebecd93db98babaea6ac9404e9d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 06/24] fix: restore permissions after changing the owner

---
 src/restore.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index 2ca3cab..b70f4f6 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -394,7 +394,8 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
         sChown(node->path, state->uid, state->gid);
       }
     }
-    if(node->hint & BH_permissions_changed)
+    /* Changing the owner may clear the setuid and setgid bits. */
+    if(node->hint & (BH_permissions_changed | BH_owner_changed))
     {
       if(state->type == PST_regular_file)
       {
-- 
2.43.0


From 254c43bc89a6df744d9d5a596eee747d75721e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 07/24] fix: restore directories which were replaced by
 dangling symlinks

---
 src/restore.c       |  4 +++-
 src/safe-wrappers.c | 27 +++++++++++++++++++++++++++
 src/safe-wrappers.h |  1 +
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index b70f4f6..face491 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -133,7 +133,9 @@ static void checkAndHandleChanges(AllocatorPair *allocator_pair,
   {
     /* Only directories may be replaced by symlinks pointing to them. */
     const struct stat stats =
-      state->type == PST_directory ? sStat(node->path) : sLStat(node->path);
+      state->type == PST_directory && sPathIsDirectory(node->path)
+      ? sStat(node->path)
+      : sLStat(node->path);
 
     handleFiletypeChanges(node, state, stats);
     if(backupHintNoPol(node->hint) == BH_none)
diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index f03495a..832dbce 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -396,6 +396,33 @@ bool sPathExists(StringView path)
   return exists;
 }
 
+/** Checks if the given path is a directory or a symlink pointing to a
+  directory. Dangling symlinks are not considered as errors.
+
+  @param path The path to check.
+
+  @return True if the path leads to a directory.
+*/
+bool sPathIsDirectory(StringView path)
+{
+  const int old_errno = errno;
+  bool is_directory = false;
+  struct stat stats;
+  errno = 0;
+
+  if(stat(nullTerminate(path), &stats) == 0)
+  {
+    is_directory = S_ISDIR(stats.st_mode);
+  }
+  else if(errno != ENOENT && errno != ENOTDIR && errno != ELOOP)
+  {
+    dieErrno("failed to access \"" PRI_STR "\"", STR_FMT(path));
+  }
+
+  errno = old_errno;
+  return is_directory;
+}
+
 /** Safe wrapper around stat(). */
 struct stat sStat(StringView path)
 {
diff --git a/src/safe-wrappers.h b/src/safe-wrappers.h
index a46e615..9ab0fab 100644
--- a/src/safe-wrappers.h
+++ b/src/safe-wrappers.h
@@ -40,6 +40,7 @@ extern StringView sDirGetNext(DirIterator *dir);
 extern void sDirClose(DirIterator *dir);
 
 extern bool sPathExists(StringView path);
+extern bool sPathIsDirectory(StringView path);
 extern struct stat sStat(StringView path);
 extern struct stat sLStat(StringView path);
 extern void sMkdir(StringView path);
-- 
2.43.0


From e5fada21419bc3c0d1db3db70ce65707c8fa42bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 08/24] fix: restore the contents of read-only directories as
 unprivileged user

---
 src/restore.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index face491..6cfa7d0 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -338,7 +338,10 @@ static void restorePath(const PathNode *node, const PathState *state,
   {
     sMkdir(node->path);
     sChown(node->path, state->uid, state->gid);
-    sChmod(node->path, state->metadata.directory_info.permission_bits);
+    /* Ensure that subnodes can be restored, even by unprivileged users. The
+       final permissions are set by finishRestoreRecursively(). */
+    sChmod(node->path,
+           state->metadata.directory_info.permission_bits | S_IRWXU);
     sUtime(node->path, state->metadata.directory_info.modification_time);
   }
 }
@@ -452,6 +455,12 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
     {
       sUtime(node->path, state->metadata.directory_info.modification_time);
     }
+
+    const mode_t mode = state->metadata.directory_info.permission_bits;
+    if(affects_parent_timestamp && mode != (mode | S_IRWXU))
+    {
+      sChmod(node->path, mode);
+    }
   }
 
   return affects_parent_timestamp;
-- 
2.43.0


From c353147ce531b619926a0faa76e39cb5c9116867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 09/24] fix: restore missing contents of directories which
 become read-only

---
 src/restore.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/restore.c b/src/restore.c
index 6cfa7d0..1782697 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -358,6 +358,7 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
                                      StringView repo_path)
 {
   bool affects_parent_timestamp = false;
+  bool requires_final_chmod = false;
 
   const PathState *state = searchExistingPathState(node, id);
   if(state == NULL)
@@ -408,7 +409,9 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
       }
       else if(state->type == PST_directory)
       {
-        sChmod(node->path, state->metadata.directory_info.permission_bits);
+        sChmod(node->path,
+               state->metadata.directory_info.permission_bits | S_IRWXU);
+        requires_final_chmod = true;
       }
     }
 
@@ -457,7 +460,8 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
     }
 
     const mode_t mode = state->metadata.directory_info.permission_bits;
-    if(affects_parent_timestamp && mode != (mode | S_IRWXU))
+    requires_final_chmod |= affects_parent_timestamp;
+    if(requires_final_chmod && mode != (mode | S_IRWXU))
     {
       sChmod(node->path, mode);
     }
-- 
2.43.0


From c004f5c3c59c617e0c2d5b6184fc2a9cbcd2b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 10/24] fix: don't lose contents left behind by interrupted
 backups on power failure

---
 src/backup.c     |  1 +
 src/repository.c | 35 ++++++++++++++++++++++++++++-------
 src/repository.h |  2 ++
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/backup.c b/src/backup.c
index f439a41..d4ea16b 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -735,6 +735,7 @@ static bool searchFileDuplicates(PathNode *node, StringView repo_path,
   {
     if(equalsToStoredFile(node, repo_path, stats))
     {
+      repoSyncRegularFile(repo_path, file_info);
       return true;
     }
     if(file_info->slot == UINT8_MAX)
diff --git a/src/repository.c b/src/repository.c
index 693f94b..45bfb4b 100644
--- a/src/repository.c
+++ b/src/repository.c
@@ -148,6 +148,33 @@ bool repoRegularFileExists(StringView repo_path,
   return sPathExists(str(path_buffer));
 }
 
+/** Synchronizes all directories leading to the file to which the
+  path_buffer points. Truncates the path_buffer.
+
+  @param repo_path The path with which the path_buffer was populated.
+*/
+static void syncParentDirectories(StringView repo_path)
+{
+  path_buffer[repo_path.length + 5] = '\0';
+  fDatasync(str(path_buffer));
+  path_buffer[repo_path.length + 2] = '\0';
+  fDatasync(str(path_buffer));
+  fDatasync(repo_path);
+}
+
+/** Ensures that the given existing file can't get lost on a power failure.
+  An interrupted backup may have left it behind without synchronizing its
+  parent directories.
+
+  @param repo_path The full or relative path to a backup repository.
+  @param info The file info describing the file inside the repository.
+*/
+void repoSyncRegularFile(StringView repo_path, const RegularFileInfo *info)
+{
+  fillPathBufferWithInfo(repo_path, info);
+  syncParentDirectories(repo_path);
+}
+
 /** Builds the unique path of the file represented by the given info.
 
   @param buffer_ptr Buffer for storing the string. This buffer must have
@@ -368,21 +395,15 @@ void repoWriterClose(RepoWriter *writer_to_close)
       if(!sPathExists(str(path_buffer)))
       {
         sMkdir(str(path_buffer));
-        fDatasync(writer.repo_path);
       }
       path_buffer[repo_path.length + 2] = '/';
 
       sMkdir(str(path_buffer));
-
-      path_buffer[repo_path.length + 2] = '\0';
-      fDatasync(str(path_buffer));
-      path_buffer[repo_path.length + 2] = '/';
     }
     path_buffer[repo_path.length + 5] = '/';
 
     sRename(writer.repo_tmp_file_path, str(path_buffer));
-    path_buffer[repo_path.length + 5] = '\0';
-    fDatasync(str(path_buffer));
+    syncParentDirectories(repo_path);
   }
 
   fDatasync(writer.repo_path);
diff --git a/src/repository.h b/src/repository.h
index 9aadca5..4b4b063 100644
--- a/src/repository.h
+++ b/src/repository.h
@@ -36,6 +36,8 @@ typedef struct
 
 extern bool repoRegularFileExists(StringView repo_path,
                                   const RegularFileInfo *info);
+extern void repoSyncRegularFile(StringView repo_path,
+                                const RegularFileInfo *info);
 extern void repoBuildRegularFilePath(char **buffer_ptr,
                                      const RegularFileInfo *info);
 
-- 
2.43.0


From 094f29abaeefc81f4672ae8e15854da1f1045a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 11/24] fix: don't report unsynchronized backups as up to date

---
 src/nb.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nb.c b/src/nb.c
index 41240d4..6bfe30e 100644
--- a/src/nb.c
+++ b/src/nb.c
@@ -306,6 +306,12 @@ static void backup(CR_Region *r, StringView repo_arg)
 
     runGC(metadata, repo_arg, true);
   }
+  else
+  {
+    /* An interrupted backup may have already replaced the metadata without
+       synchronizing the repository. */
+    fDatasync(repo_path);
+  }
 }
 
 static Metadata *metadataLoadFromRepo(CR_Region *r, StringView repo_arg,
-- 
2.43.0


From 145580d058a6f43c3911e23e8b166eb67f016f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 12/24] fix: don't report success for restores which failed to
 print a newline

---
 src/nb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nb.c b/src/nb.c
index 6bfe30e..2b85837 100644
--- a/src/nb.c
+++ b/src/nb.c
@@ -356,8 +356,9 @@ static void restore(CR_Region *r, StringView repo_arg, const size_t id,
   initiateRestore(metadata, id, full_path);
 
   const ChangeSummary changes = printMetadataChanges(metadata, NULL);
-  if(containsChanges(&changes) && printf("\n") == 1)
+  if(containsChanges(&changes))
   {
+    printf("\n");
     ensureUserConsent("restore?", allocatorWrapOneSingleGrowableBuffer(r));
     finishRestore(metadata, id, repo_arg);
   }
-- 
2.43.0


From 7f358b08ef5ce3bcc4e657f1744fca1a6f617c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 13/24] fix: list paths whose stored contents lie below a file
 in integrity checks

---
 src/integrity.c     |  7 +------
 src/safe-wrappers.c | 27 +++++++++++++++++++++++++++
 src/safe-wrappers.h |  1 +
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/integrity.c b/src/integrity.c
index e8bd968..f74bb03 100644
--- a/src/integrity.c
+++ b/src/integrity.c
@@ -90,18 +90,13 @@ static bool storedFileIsHealthy(IntegrityCheckContext *ctx,
   StringView path_to_stored_file = strAppendPath(
     ctx->repo_path, unique_subpath, ctx->reusable_buffer_allocator);
 
-  if(!sPathExists(path_to_stored_file))
+  if(!sPathIsRegularFile(path_to_stored_file))
   {
     callProgressCallback(ctx, file_info->size);
     return false;
   }
 
   const struct stat stats = sLStat(path_to_stored_file);
-  if(!S_ISREG(stats.st_mode))
-  {
-    callProgressCallback(ctx, file_info->size);
-    return false;
-  }
   if((uint64_t)stats.st_size != file_info->size)
   {
     callProgressCallback(ctx, file_info->size);
diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index 832dbce..793b665 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -423,6 +423,33 @@ bool sPathIsDirectory(StringView path)
   return is_directory;
 }
 
+/** Checks if the given path is a regular file without following symlinks.
+  Unreachable paths are not considered as errors.
+
+  @param path The path to check.
+
+  @return True if the path is a regular file.
+*/
+bool sPathIsRegularFile(StringView path)
+{
+  const int old_errno = errno;
+  bool is_regular_file = false;
+  struct stat stats;
+  errno = 0;
+
+  if(lstat(nullTerminate(path), &stats) == 0)
+  {
+    is_regular_file = S_ISREG(stats.st_mode);
+  }
+  else if(errno != ENOENT && errno != ENOTDIR && errno != ELOOP)
+  {
+    dieErrno("failed to access \"" PRI_STR "\"", STR_FMT(path));
+  }
+
+  errno = old_errno;
+  return is_regular_file;
+}
+
 /** Safe wrapper around stat(). */
 struct stat sStat(StringView path)
 {
diff --git a/src/safe-wrappers.h b/src/safe-wrappers.h
index 9ab0fab..4426254 100644
--- a/src/safe-wrappers.h
+++ b/src/safe-wrappers.h
@@ -41,6 +41,7 @@ extern void sDirClose(DirIterator *dir);
 
 extern bool sPathExists(StringView path);
 extern bool sPathIsDirectory(StringView path);
+extern bool sPathIsRegularFile(StringView path);
 extern struct stat sStat(StringView path);
 extern struct stat sLStat(StringView path);
 extern void sMkdir(StringView path);
-- 
2.43.0


From 64ccb34f15bc235ff2c641616d5c2f302ac6889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:37 +0000
Subject: [PATCH 14/24] fix: reject metadata with impossible policies,
 histories, targets or paths

An unknown policy was accepted, and an empty history lead to a NULL
dereference. Nesting paths deeply enough overflowed the stack.
---
 src/metadata.c | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/metadata.c b/src/metadata.c
index 6cde6cf..923f8b6 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -26,6 +26,10 @@ static const union
   uint8_t array[4];
 } endian_test = { .value = 1 };
 
+/** Longer paths can't exist on any supported system. This limits the depth
+  to which corrupted metadata can be nested. */
+static const size_t max_path_length = 16384;
+
 static void assertBytesLeft(const size_t reader_position,
                             const size_t bytes, const FileContent content,
                             StringView metadata_path)
@@ -253,6 +257,12 @@ static PathHistory *readPathHistory(Allocator *region_wrapper,
 
     buffer[target_length] = '\0';
 
+    if(target_length == 0 || strlen(buffer) != target_length)
+    {
+      die("contains invalid symlink target: \"" PRI_STR "\"",
+          STR_FMT(metadata_path));
+    }
+
     strSet(&point->state.metadata.symlink_target, str(buffer));
   }
   else if(point->state.type == PST_directory)
@@ -302,6 +312,12 @@ static PathHistory *readFullPathHistory(Allocator *region_wrapper,
   {
     current_point->next = readPathHistory(
       region_wrapper, content, reader_position, metadata_path, metadata);
+
+    if(current_point->next->backup <= current_point->backup)
+    {
+      die("contains unordered path history: \"" PRI_STR "\"",
+          STR_FMT(metadata_path));
+    }
     current_point = current_point->next;
   }
 
@@ -436,13 +452,34 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
       parent_node == NULL ? str("") : parent_node->path;
     strSet(&node->path, strAppendPath(parent_path, name, region_wrapper));
 
+    if(node->path.length > max_path_length)
+    {
+      die("contains path with %zu bytes: \"" PRI_STR "\"",
+          node->path.length, STR_FMT(metadata_path));
+    }
+    if(strTableGet(metadata->path_table, node->path) != NULL)
+    {
+      die("contains path \"" PRI_STR "\" multiple times: \"" PRI_STR "\"",
+          STR_FMT(node->path), STR_FMT(metadata_path));
+    }
+
     /* Read other node variables. */
     strTableMap(metadata->path_table, node->path, node);
 
     node->hint = BH_none;
     node->policy = read8(content, reader_position, metadata_path);
+    if(node->policy > BPOL_track)
+    {
+      die("invalid policy in \"" PRI_STR "\"", STR_FMT(metadata_path));
+    }
+
     node->history = readFullPathHistory(
       region_wrapper, content, reader_position, metadata_path, metadata);
+    if(node->history == NULL)
+    {
+      die("contains path without history: \"" PRI_STR "\"",
+          STR_FMT(metadata_path));
+    }
 
     node->subnodes =
       readPathSubnodes(region_wrapper, content, reader_position,
-- 
2.43.0


From 7d000fe279aea12cf01576f4a70f93477e646447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 15/24] fix: don't report overlapping patterns as never matched

Only the first ignore or summarize expression to match a path was marked
as matching.
---
 src/informations.c | 9 +++++----
 src/search.c       | 9 +++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/informations.c b/src/informations.c
index 3a0326a..dfc9190 100644
--- a/src/informations.c
+++ b/src/informations.c
@@ -483,8 +483,8 @@ static void printNode(const PathNode *node, const ChangeSummary *summary,
   specified regex list
 
   @param node Path to match.
-  @param expression_list List of regular expressions. Can be NULL. The
-  first expression to match will get its `has_matched` field updated.
+  @param expression_list List of regular expressions. Can be NULL. All
+  matching expressions will get their `has_matched` field updated.
 
   @return True if the given path node got matched by one of the specified
   regex patterns.
@@ -492,16 +492,17 @@ static void printNode(const PathNode *node, const ChangeSummary *summary,
 static bool matchesRegexList(const PathNode *node,
                              RegexList *expression_list)
 {
+  bool matches = false;
   for(RegexList *expression = expression_list; expression != NULL;
       expression = expression->next)
   {
     if(sRegexIsMatching(expression->regex, node->path))
     {
       expression->has_matched = true;
-      return true;
+      matches = true;
     }
   }
-  return false;
+  return matches;
 }
 
 /** Prints informations about a tree recursively.
diff --git a/src/search.c b/src/search.c
index 0675775..126f3de 100644
--- a/src/search.c
+++ b/src/search.c
@@ -295,16 +295,21 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
     return finishSearchStep(iterator);
   }
 
-  /* Match against ignore expressions. */
+  /* Match against all ignore expressions, to know which of them match. */
+  bool ignore = false;
   for(RegexList *element = iterator->ignore_expressions; element != NULL;
       element = element->next)
   {
     if(sRegexIsMatching(element->regex, iterator->current_path))
     {
       element->has_matched = true;
-      return finishSearchStep(iterator);
+      ignore = true;
     }
   }
+  if(ignore)
+  {
+    return finishSearchStep(iterator);
+  }
 
   return finishNodeStep(iterator, NULL,
                         iterator->state.access.search.fallback_policy);
-- 
2.43.0


From 4fa8c393cb91d9f5e0703a84eb45f5d31d959015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:04 +0000
Subject: [PATCH 16/24] fix: don't store malformed names when searching the
 root directory

Entries of / were returned with two leading slashes. Their names were
stored as "/name", making the repository unloadable, and anchored
patterns for top level paths never matched.
---
 src/safe-wrappers.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index 793b665..8644518 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -321,7 +321,10 @@ StringView sDirGetNext(DirIterator *dir)
     return str("");
   }
 
-  return strAppendPath(dir->directory_path, str(dir_entry->d_name),
+  /* Prevent paths inside the root directory from starting with two
+     slashes. */
+  return strAppendPath(strStripTrailingSlashes(dir->directory_path),
+                       str(dir_entry->d_name),
                        dir->returned_result_buffer);
 }
 
-- 
2.43.0


From 07e439136a445e942edd9d60d9e5554af7598d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 17/24] fix: don't run concurrently with another process after
 the lockfile was removed

A process removed its lockfile after unlocking it. Another process could
already hold the lock on this file at that time, and a third one would then
create and lock a new lockfile while the second one was still running.
---
 src/repository.c | 56 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/repository.c b/src/repository.c
index 45bfb4b..04065d9 100644
--- a/src/repository.c
+++ b/src/repository.c
@@ -7,6 +7,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include "CRegion/alloc-growable.h"
@@ -424,9 +425,11 @@ static void cleanupLockfile(void *lockfile_info_ptr)
   const int old_errno = errno;
   if(info->is_locked)
   {
+    /* Must be removed before it gets unlocked. Otherwise it could already
+       belong to another process. */
+    (void)remove(info->file_path);
     (void)lockf(info->file_descriptor, F_ULOCK, 0);
     (void)close(info->file_descriptor);
-    (void)remove(info->file_path);
   }
   else
   {
@@ -435,6 +438,33 @@ static void cleanupLockfile(void *lockfile_info_ptr)
   errno = old_errno;
 }
 
+static int openLockfile(const char *path)
+{
+  return open(path, O_CREAT | O_WRONLY, S_IWUSR | S_IWGRP);
+}
+
+/** Returns true if the opened lockfile is still reachable trough its
+  path. */
+static bool isStillLockfile(const LockfileInfo *info)
+{
+  struct stat opened, current;
+
+  if(stat(info->file_path, &current) != 0)
+  {
+    if(errno == ENOENT)
+    {
+      return false;
+    }
+    dieErrno("failed to access lockfile: \"%s\"", info->file_path);
+  }
+  if(fstat(info->file_descriptor, &opened) != 0)
+  {
+    dieErrno("failed to access lockfile: \"%s\"", info->file_path);
+  }
+
+  return opened.st_dev == current.st_dev && opened.st_ino == current.st_ino;
+}
+
 /** Lock the specified repository until the given region gets released. If
   the repository is already locked by another process, the program will be
   terminated with an error message. Calling this function twice from the
@@ -453,7 +483,7 @@ void repoLock(CR_Region *r, StringView repo_path,
   lockfile_info->file_path =
     strGetContent(strAppendPath(repo_path, str("lockfile"), a), a);
   lockfile_info->file_descriptor =
-    open(lockfile_info->file_path, O_CREAT | O_WRONLY, S_IWUSR | S_IWGRP);
+    openLockfile(lockfile_info->file_path);
 
   if(lockfile_info->file_descriptor == -1)
   {
@@ -467,11 +497,27 @@ void repoLock(CR_Region *r, StringView repo_path,
   }
   CR_RegionAttach(r, cleanupLockfile, lockfile_info);
 
-  if(lockf(lockfile_info->file_descriptor, F_TLOCK, 0) == 0)
+  while(lockf(lockfile_info->file_descriptor, F_TLOCK, 0) == 0)
   {
-    lockfile_info->is_locked = true;
+    if(isStillLockfile(lockfile_info))
+    {
+      lockfile_info->is_locked = true;
+      return;
+    }
+
+    /* The process which held the lock has removed the lockfile between
+       opening and locking it. */
+    (void)close(lockfile_info->file_descriptor);
+    lockfile_info->file_descriptor =
+      openLockfile(lockfile_info->file_path);
+    if(lockfile_info->file_descriptor == -1)
+    {
+      dieErrno("failed to create lockfile: \"%s\"",
+               lockfile_info->file_path);
+    }
   }
-  else if(errno == EACCES || errno == EAGAIN)
+
+  if(errno == EACCES || errno == EAGAIN)
   {
     die("repository is already being used by another process");
   }
-- 
2.43.0


From ed4bb9cf19e6004b54d17b87d1208af80b96c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:56 +0000
Subject: [PATCH 18/24] fix: don't store files modified during a backup under a
 wrong hash

A file which was modified between hashing and copying without changing its
size and timestamp was stored under the hash of its former content. The
repository was then broken, and contents stored later could be lost.
---
 src/backup.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index d4ea16b..e0502e1 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -3,6 +3,7 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include "BLAKE2/blake2.h"
 #include "CRegion/alloc-growable.h"
 
 #include "backup-helpers.h"
@@ -631,12 +632,16 @@ static void copyFileIntoRepo(PathNode *node, StringView repo_path,
 
   io_buffer = CR_EnsureCapacity(io_buffer, blocksize);
 
+  blake2b_state hash_state;
+  blake2b_init(&hash_state, FILE_HASH_SIZE);
+
   while(bytes_left > 0)
   {
     const size_t bytes_to_read =
       bytes_left > blocksize ? blocksize : bytes_left;
 
     sFread(io_buffer, bytes_to_read, reader);
+    blake2b_update(&hash_state, io_buffer, bytes_to_read);
     repoWriterWrite(io_buffer, bytes_to_read, writer);
 
     bytes_left -= bytes_to_read;
@@ -645,7 +650,12 @@ static void copyFileIntoRepo(PathNode *node, StringView repo_path,
   const bool stream_not_at_end = sFbytesLeft(reader);
   sFclose(reader);
 
-  if(stream_not_at_end)
+  /* The file may have been modified since its hash was calculated. */
+  uint8_t copied_hash[FILE_HASH_SIZE];
+  blake2b_final(&hash_state, copied_hash, FILE_HASH_SIZE);
+
+  if(stream_not_at_end ||
+     memcmp(copied_hash, file_info->hash, FILE_HASH_SIZE) != 0)
   {
     die("file has changed during backup: \"" PRI_STR "\"",
         STR_FMT(node->path));
-- 
2.43.0


From fa908c5cad4c5f048750fd6a69ac5edb8e8d0ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:47 +0000
Subject: [PATCH 19/24] fix: strip the extra slash of root directory entries
 only while searching

The previous fix changed the paths returned by sDirGetNext() for every
directory with trailing slashes. The garbage collector relies on them
and would have removed the entire content of "repo/".
---
 src/safe-wrappers.c | 5 +----
 src/search.c        | 7 +++++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index 8644518..793b665 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -321,10 +321,7 @@ StringView sDirGetNext(DirIterator *dir)
     return str("");
   }
 
-  /* Prevent paths inside the root directory from starting with two
-     slashes. */
-  return strAppendPath(strStripTrailingSlashes(dir->directory_path),
-                       str(dir_entry->d_name),
+  return strAppendPath(dir->directory_path, str(dir_entry->d_name),
                        dir->returned_result_buffer);
 }
 
diff --git a/src/search.c b/src/search.c
index 126f3de..d1fa4fd 100644
--- a/src/search.c
+++ b/src/search.c
@@ -261,6 +261,13 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
 
   /* Create new path for matching. */
   StringView dir_entry_name = strSplitPath(entry).tail;
+  if(dir_entry_name.content[0] == '/')
+  {
+    /* Entries of the root directory start with two slashes. */
+    strSet(&dir_entry_name,
+           strUnterminated(&dir_entry_name.content[1],
+                           dir_entry_name.length - 1));
+  }
   replaceCurrentFilename(iterator, dir_entry_name);
 
   /* Match subnodes against dir_entry. */
-- 
2.43.0


From 37366fad3ab64368b0564a20be748c0cded6e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:53 +0000
Subject: [PATCH 20/24] fix: don't ask for restoring parent directories without
 mentioning them

---
 src/informations.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/informations.c b/src/informations.c
index dfc9190..e4b56ba 100644
--- a/src/informations.c
+++ b/src/informations.c
@@ -570,6 +570,14 @@ static ChangeSummary recursePrintOverTree(const Metadata *metadata,
     {
       summary = recursePrintOverTree(metadata, node->subnodes,
                                      expressions_to_pass_down, print);
+
+      /* Parent directories without any other new path in them wouldn't be
+         mentioned at all. */
+      if(print && node->policy == BPOL_none && node->hint == BH_added &&
+         summary.new_items.affected_items_count == 0)
+      {
+        printNode(node, &summary, summarize);
+      }
     }
 
     addNode(node, &changes, summary.affects_parent_timestamp);
-- 
2.43.0


From 3f4c78a3e7bc485df93dff5571765e4870dc5aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 21/24] fix: don't overflow the stack in directories with many
 entries to skip

Every skipped entry was a nested function call. Without optimizations, a
directory containing 100000 ignored files crashed the program.
---
 src/search.c | 134 ++++++++++++++++++++++++++-------------------------
 1 file changed, 68 insertions(+), 66 deletions(-)

diff --git a/src/search.c b/src/search.c
index d1fa4fd..f2c7311 100644
--- a/src/search.c
+++ b/src/search.c
@@ -252,74 +252,78 @@ static bool nodeMatches(const SearchNode *node, StringView string)
 */
 static SearchResult finishSearchStep(SearchIterator *iterator)
 {
-  StringView entry = sDirGetNext(iterator->state.access.search.dir);
-  if(strIsEmpty(entry))
+  /* Directories can contain any amount of entries to skip. */
+  while(true)
   {
-    sDirClose(iterator->state.access.search.dir);
-    return finishDirectory(iterator);
-  }
+    StringView entry = sDirGetNext(iterator->state.access.search.dir);
+    if(strIsEmpty(entry))
+    {
+      sDirClose(iterator->state.access.search.dir);
+      return finishDirectory(iterator);
+    }
 
-  /* Create new path for matching. */
-  StringView dir_entry_name = strSplitPath(entry).tail;
-  if(dir_entry_name.content[0] == '/')
-  {
-    /* Entries of the root directory start with two slashes. */
-    strSet(&dir_entry_name,
-           strUnterminated(&dir_entry_name.content[1],
-                           dir_entry_name.length - 1));
-  }
-  replaceCurrentFilename(iterator, dir_entry_name);
+    /* Create new path for matching. */
+    StringView dir_entry_name = strSplitPath(entry).tail;
+    if(dir_entry_name.content[0] == '/')
+    {
+      /* Entries of the root directory start with two slashes. */
+      strSet(&dir_entry_name,
+             strUnterminated(&dir_entry_name.content[1],
+                             dir_entry_name.length - 1));
+    }
+    replaceCurrentFilename(iterator, dir_entry_name);
 
-  /* Match subnodes against dir_entry. */
-  SearchNode *matched_node = NULL;
-  for(SearchNode *node = iterator->state.access.search.subnodes;
-      node != NULL; node = node->next)
-  {
-    if(nodeMatches(node, dir_entry_name))
+    /* Match subnodes against dir_entry. */
+    SearchNode *matched_node = NULL;
+    for(SearchNode *node = iterator->state.access.search.subnodes;
+        node != NULL; node = node->next)
     {
-      if(matched_node == NULL)
-      {
-        matched_node = node;
-      }
-      else
+      if(nodeMatches(node, dir_entry_name))
       {
-        warnNodeMatches(node, dir_entry_name);
-        warnNodeMatches(matched_node, dir_entry_name);
-        die("ambiguous rules for path: \"" PRI_STR "\"",
-            STR_FMT(iterator->current_path));
+        if(matched_node == NULL)
+        {
+          matched_node = node;
+        }
+        else
+        {
+          warnNodeMatches(node, dir_entry_name);
+          warnNodeMatches(matched_node, dir_entry_name);
+          die("ambiguous rules for path: \"" PRI_STR "\"",
+              STR_FMT(iterator->current_path));
+        }
       }
     }
-  }
 
-  if(matched_node != NULL)
-  {
-    return finishNodeStep(iterator, matched_node, matched_node->policy);
-  }
+    if(matched_node != NULL)
+    {
+      return finishNodeStep(iterator, matched_node, matched_node->policy);
+    }
 
-  /* Skip current path, if no fallback policy was defined. */
-  if(iterator->state.access.search.fallback_policy == BPOL_none)
-  {
-    return finishSearchStep(iterator);
-  }
+    /* Skip current path, if no fallback policy was defined. */
+    if(iterator->state.access.search.fallback_policy == BPOL_none)
+    {
+      continue;
+    }
 
-  /* Match against all ignore expressions, to know which of them match. */
-  bool ignore = false;
-  for(RegexList *element = iterator->ignore_expressions; element != NULL;
-      element = element->next)
-  {
-    if(sRegexIsMatching(element->regex, iterator->current_path))
+    /* Match against all ignore expressions, to know which of them match. */
+    bool ignore = false;
+    for(RegexList *element = iterator->ignore_expressions; element != NULL;
+        element = element->next)
     {
-      element->has_matched = true;
-      ignore = true;
+      if(sRegexIsMatching(element->regex, iterator->current_path))
+      {
+        element->has_matched = true;
+        ignore = true;
+      }
+    }
+    if(ignore)
+    {
+      continue;
     }
-  }
-  if(ignore)
-  {
-    return finishSearchStep(iterator);
-  }
 
-  return finishNodeStep(iterator, NULL,
-                        iterator->state.access.search.fallback_policy);
+    return finishNodeStep(iterator, NULL,
+                          iterator->state.access.search.fallback_policy);
+  }
 }
 
 /** Completes a search step by directly accessing next node available in
@@ -331,22 +335,20 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
 */
 static SearchResult finishCurrentNode(SearchIterator *iterator)
 {
-  if(iterator->state.access.current_node == NULL)
+  while(iterator->state.access.current_node != NULL)
   {
-    return finishDirectory(iterator);
-  }
-
-  SearchNode *node = iterator->state.access.current_node;
-  iterator->state.access.current_node = node->next;
+    SearchNode *node = iterator->state.access.current_node;
+    iterator->state.access.current_node = node->next;
 
-  replaceCurrentFilename(iterator, node->name);
+    replaceCurrentFilename(iterator, node->name);
 
-  if(sPathExists(iterator->current_path))
-  {
-    return finishNodeStep(iterator, node, node->policy);
+    if(sPathExists(iterator->current_path))
+    {
+      return finishNodeStep(iterator, node, node->policy);
+    }
   }
 
-  return finishCurrentNode(iterator);
+  return finishDirectory(iterator);
 }
 
 /** Creates a new SearchIterator for searching the filesystem.
-- 
2.43.0


From 113b5d43113d5bfc6af0a91c426ced67da898e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 22/24] fix: reject configured paths which would overflow the
 stack

A line with some 60000 path elements crashed the program and left a
lockfile behind.
---
 src/search-tree.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/search-tree.c b/src/search-tree.c
index 44c1a1c..cfaee25 100644
--- a/src/search-tree.c
+++ b/src/search-tree.c
@@ -9,6 +9,10 @@
 #include "safe-wrappers.h"
 #include "string-table.h"
 
+/** The maximum amount of slashes a path in the config can contain. Exceeds
+  the amount of elements in paths supported by common operating systems. */
+static const size_t max_slash_count = 4096;
+
 /** Returns a string slice, containing the current line in the given config
   files data.
 
@@ -240,6 +244,18 @@ SearchNode *searchTreeParse(CR_Region *r, StringView config)
     }
     else if(line.content[0] == '/')
     {
+      /* Path elements are processed recursively. */
+      size_t slash_count = 0;
+      for(size_t index = 0; index < line.length; index++)
+      {
+        slash_count += line.content[index] == '/';
+      }
+      if(slash_count > max_slash_count)
+      {
+        die("config: line %zu: path contains more than %zu slashes",
+            line_nr, max_slash_count);
+      }
+
       if(strPathContainsDotElements(line))
       {
         die("config: line %zu: path contains \".\" or \"..\": \"" PRI_STR
-- 
2.43.0


From 1b5c750fb31a391dbe1d1b924815c286a47c4ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 23/24] fix: restore contents of read-only and setuid files as
 unprivileged user

A changed read-only file could not be opened for writing, and a changed
setuid file silently lost its setuid bit while its content was restored.
---
 src/restore.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/restore.c b/src/restore.c
index 1782697..e48e98c 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -419,7 +419,16 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
     {
       if(state->type == PST_regular_file)
       {
+        const mode_t mode = state->metadata.file_info.permission_bits;
+
+        /* Unprivileged users can't write into their read-only files, and
+           writing clears the setuid and setgid bits. */
+        if(!(mode & S_IWUSR))
+        {
+          sChmod(node->path, mode | S_IWUSR);
+        }
         restoreFile(node->path, &state->metadata.file_info, repo_path);
+        sChmod(node->path, mode);
         sUtime(node->path, state->metadata.file_info.modification_time);
       }
       else if(state->type == PST_symlink)
-- 
2.43.0


From 88bc4ab23d9d52ff533a40debf360ba727807029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 24/24] fix: restore entries of existing read-only directories
 as unprivileged user

---
 src/restore.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index e48e98c..bd92c06 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -346,6 +346,27 @@ static void restorePath(const PathNode *node, const PathState *state,
   }
 }
 
+/** Returns true if restoring the subnodes of the given node to the
+  specified id creates or replaces entries of the directory it represents.
+*/
+static bool affectsEntries(const PathNode *node, const size_t id)
+{
+  for(const PathNode *subnode = node->subnodes; subnode != NULL;
+      subnode = subnode->next)
+  {
+    const PathState *state = searchExistingPathState(subnode, id);
+    const BackupHint hint = backupHintNoPol(subnode->hint);
+    if(state != NULL &&
+       ((hint >= BH_added && hint <= BH_other_to_directory) ||
+        (state->type == PST_symlink && (hint & BH_content_changed))))
+    {
+      return true;
+    }
+  }
+
+  return false;
+}
+
 /** Recursive counterpart to finishRestore().
 
   @param node The node to restore.
@@ -454,8 +475,18 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
 
   if(state->type == PST_directory)
   {
+    const mode_t mode = state->metadata.directory_info.permission_bits;
     bool subnode_changes_timestamp = false;
 
+    /* Ensure that subnodes can be restored, even by unprivileged users. */
+    if(!affects_parent_timestamp && !requires_final_chmod &&
+       node->policy != BPOL_none && mode != (mode | S_IRWXU) &&
+       affectsEntries(node, id))
+    {
+      sChmod(node->path, mode | S_IRWXU);
+      requires_final_chmod = true;
+    }
+
     for(const PathNode *subnode = node->subnodes; subnode != NULL;
         subnode = subnode->next)
     {
@@ -468,7 +499,6 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
       sUtime(node->path, state->metadata.directory_info.modification_time);
     }
 
-    const mode_t mode = state->metadata.directory_info.permission_bits;
     requires_final_chmod |= affects_parent_timestamp;
     if(requires_final_chmod && mode != (mode | S_IRWXU))
     {
-- 
2.43.0

