From fb1472236598efad05e57b7e148a5b84154aefef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 01/20] fix: don't duplicate slashes while listing the root
 directory

Listing "/" returned paths like "//home". For configurations with a rule
or regex directly below the root this stored the name "/home", which made
the metadata unreadable by every later run.
---
 src/safe-wrappers.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index f03495a..375221a 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -321,7 +321,8 @@ StringView sDirGetNext(DirIterator *dir)
     return str("");
   }
 
-  return strAppendPath(dir->directory_path, str(dir_entry->d_name),
+  return strAppendPath(strStripTrailingSlashes(dir->directory_path),
+                       str(dir_entry->d_name),
                        dir->returned_result_buffer);
 }
 
-- 
2.43.0


From 8edd265a167246a0dac76c0a5a70cabde9604b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:29 +0000
Subject: [PATCH 02/20] fix: sync directories left unsynced by interrupted runs

A run which got killed or failed between creating a directory or object
and syncing it left names behind which later runs took for granted. Those
backups reported success, but a power loss could still remove objects or
metadata they depend on.
---
 src/backup.c     |  6 +++++-
 src/nb.c         | 19 ++++++++++++++++---
 src/repository.c | 35 ++++++++++++++++++++++++++++-------
 src/repository.h |  2 ++
 4 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/src/backup.c b/src/backup.c
index 898f544..7880d93 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -766,7 +766,11 @@ static void addFileToRepo(PathNode *node, StringView repo_path,
       fileHash(node->path, stats, file_info->hash, NULL, NULL);
     }
 
-    if(!searchFileDuplicates(node, repo_path, stats))
+    if(searchFileDuplicates(node, repo_path, stats))
+    {
+      repoSyncRegularFile(repo_path, file_info);
+    }
+    else
     {
       copyFileIntoRepo(node, repo_path, repo_tmp_file_path, stats);
     }
diff --git a/src/nb.c b/src/nb.c
index 41240d4..12d6ca0 100644
--- a/src/nb.c
+++ b/src/nb.c
@@ -268,9 +268,18 @@ static void backup(CR_Region *r, StringView repo_arg)
   repoLock(r, repo_path, RLH_readwrite);
   SearchNode *root_node = searchTreeLoad(r, config_path);
 
-  Metadata *metadata = sPathExists(metadata_path)
-    ? metadataLoad(r, metadata_path)
-    : metadataNew(r);
+  Metadata *metadata = NULL;
+  if(sPathExists(metadata_path))
+  {
+    /* Ensure that the metadata doesn't get lost on power failures if the
+       run which wrote it was interrupted before it could sync it. */
+    fDatasync(repo_arg);
+    metadata = metadataLoad(r, metadata_path);
+  }
+  else
+  {
+    metadata = metadataNew(r);
+  }
 
   initiateBackup(metadata, root_node);
   ChangeSummary changes =
@@ -321,6 +330,10 @@ static Metadata *metadataLoadFromRepo(CR_Region *r, StringView repo_arg,
   }
 
   repoLock(r, repo_path, lock_hint);
+  if(lock_hint == RLH_readwrite)
+  {
+    fDatasync(repo_arg); /* See backup(). */
+  }
   return metadataLoad(r, metadata_path);
 }
 
diff --git a/src/repository.c b/src/repository.c
index 693f94b..a77284d 100644
--- a/src/repository.c
+++ b/src/repository.c
@@ -330,6 +330,19 @@ void repoWriterWrite(const void *data, const size_t size,
   }
 }
 
+/** Syncs all directories inside the repository which lead to the file in
+  path_buffer, including the repository itself. They are synced even if this
+  run didn't create them, because an earlier run may have been interrupted
+  before it was able to do so. Modifies path_buffer. */
+static void syncPathBufferParents(StringView repo_path)
+{
+  path_buffer[repo_path.length + 5] = '\0';
+  fDatasync(str(path_buffer));
+  path_buffer[repo_path.length + 2] = '\0';
+  fDatasync(str(path_buffer));
+  fDatasync(repo_path);
+}
+
 /** Finalizes the write process represented by the given writer. All its
   data will be written to disk and the temporary file will be renamed to
   its final filename.
@@ -368,26 +381,34 @@ void repoWriterClose(RepoWriter *writer_to_close)
       if(!sPathExists(str(path_buffer)))
       {
         sMkdir(str(path_buffer));
-        fDatasync(writer.repo_path);
       }
       path_buffer[repo_path.length + 2] = '/';
 
       sMkdir(str(path_buffer));
-
-      path_buffer[repo_path.length + 2] = '\0';
-      fDatasync(str(path_buffer));
-      path_buffer[repo_path.length + 2] = '/';
     }
     path_buffer[repo_path.length + 5] = '/';
 
     sRename(writer.repo_tmp_file_path, str(path_buffer));
-    path_buffer[repo_path.length + 5] = '\0';
-    fDatasync(str(path_buffer));
+    syncPathBufferParents(repo_path);
+    return;
   }
 
   fDatasync(writer.repo_path);
 }
 
+/** Ensures that the name of a file which already exists in the repository
+  survives a power loss. It may have been left behind by a run which was
+  interrupted before it could sync the files parent directories.
+
+  @param repo_path The full or relative path to the repository.
+  @param info The info of an existing file in the repository.
+*/
+void repoSyncRegularFile(StringView repo_path, const RegularFileInfo *info)
+{
+  fillPathBufferWithInfo(repo_path, info);
+  syncPathBufferParents(repo_path);
+}
+
 typedef struct
 {
   /** True if the lockfile is locked by the current process. */
diff --git a/src/repository.h b/src/repository.h
index 9aadca5..3cde3f0 100644
--- a/src/repository.h
+++ b/src/repository.h
@@ -56,6 +56,8 @@ extern RepoWriter *repoWriterOpenRaw(StringView repo_path,
 extern void repoWriterWrite(const void *data, size_t size,
                             RepoWriter *writer);
 extern void repoWriterClose(RepoWriter *writer_to_close);
+extern void repoSyncRegularFile(StringView repo_path,
+                                const RegularFileInfo *info);
 
 /** Only affects lockfile creation. Does not prevent writing to
   repositories. */
-- 
2.43.0


From 825ed653cd5f99a2079c27f6846d27e9ad48f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 03/20] fix: prevent two processes from locking the same
 repository

The lockfile was removed after its lock got released. A process which
opened it in between could lock the removed file while another process
creates and locks a new one, and a finished process could remove the
lockfile of the next one.
---
 src/repository.c | 85 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 25 deletions(-)

diff --git a/src/repository.c b/src/repository.c
index a77284d..4cd1a60 100644
--- a/src/repository.c
+++ b/src/repository.c
@@ -7,6 +7,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include "CRegion/alloc-growable.h"
@@ -424,17 +425,42 @@ static void cleanupLockfile(void *lockfile_info_ptr)
   const int old_errno = errno;
   if(info->is_locked)
   {
+    /* The file must be gone before the lock gets released. Otherwise this
+       could remove the lockfile of another process. */
+    (void)remove(info->file_path);
     (void)lockf(info->file_descriptor, F_ULOCK, 0);
     (void)close(info->file_descriptor);
-    (void)remove(info->file_path);
   }
-  else
+  else if(info->file_descriptor != -1)
   {
     (void)close(info->file_descriptor);
   }
   errno = old_errno;
 }
 
+/** Returns true if the given lockfile is still the one found at its path.
+  The process which held the lock previously may have removed it between
+  opening and locking it here, in which case the lock protects nothing. */
+static bool isCurrentLockfile(const LockfileInfo *info)
+{
+  struct stat opened;
+  struct stat current;
+  if(fstat(info->file_descriptor, &opened) != 0)
+  {
+    dieErrno("failed to access lockfile: \"%s\"", info->file_path);
+  }
+  if(stat(info->file_path, &current) != 0)
+  {
+    if(errno == ENOENT)
+    {
+      return false;
+    }
+    dieErrno("failed to access lockfile: \"%s\"", info->file_path);
+  }
+
+  return opened.st_dev == current.st_dev && opened.st_ino == current.st_ino;
+}
+
 /** Lock the specified repository until the given region gets released. If
   the repository is already locked by another process, the program will be
   terminated with an error message. Calling this function twice from the
@@ -452,32 +478,41 @@ void repoLock(CR_Region *r, StringView repo_path,
   lockfile_info->is_locked = false;
   lockfile_info->file_path =
     strGetContent(strAppendPath(repo_path, str("lockfile"), a), a);
-  lockfile_info->file_descriptor =
-    open(lockfile_info->file_path, O_CREAT | O_WRONLY, S_IWUSR | S_IWGRP);
+  lockfile_info->file_descriptor = -1;
+  CR_RegionAttach(r, cleanupLockfile, lockfile_info);
 
-  if(lockfile_info->file_descriptor == -1)
+  do
   {
-    if(errno == EROFS && lock_hint == RLH_readonly)
+    if(lockfile_info->file_descriptor != -1)
     {
-      errno = old_errno;
-      return;
+      (void)close(lockfile_info->file_descriptor);
     }
-    dieErrno("failed to create lockfile: \"%s\"",
-             lockfile_info->file_path);
-  }
-  CR_RegionAttach(r, cleanupLockfile, lockfile_info);
 
-  if(lockf(lockfile_info->file_descriptor, F_TLOCK, 0) == 0)
-  {
-    lockfile_info->is_locked = true;
-  }
-  else if(errno == EACCES || errno == EAGAIN)
-  {
-    die("repository is already being used by another process");
-  }
-  else
-  {
-    dieErrno("failed to lock repository: \"%s\"",
-             lockfile_info->file_path);
-  }
+    lockfile_info->file_descriptor =
+      open(lockfile_info->file_path, O_CREAT | O_WRONLY, S_IWUSR | S_IWGRP);
+
+    if(lockfile_info->file_descriptor == -1)
+    {
+      if(errno == EROFS && lock_hint == RLH_readonly)
+      {
+        errno = old_errno;
+        return;
+      }
+      dieErrno("failed to create lockfile: \"%s\"",
+               lockfile_info->file_path);
+    }
+
+    if(lockf(lockfile_info->file_descriptor, F_TLOCK, 0) != 0)
+    {
+      if(errno == EACCES || errno == EAGAIN)
+      {
+        die("repository is already being used by another process");
+      }
+      dieErrno("failed to lock repository: \"%s\"",
+               lockfile_info->file_path);
+    }
+  } while(!isCurrentLockfile(lockfile_info));
+
+  lockfile_info->is_locked = true;
+  errno = old_errno;
 }
-- 
2.43.0


From f5cbfca06f877463dc05673c07aff80601c46295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 04/20] fix: don't skip restoring if writing to stdout fails

The restore was silently skipped with an exit status of 0.
---
 src/nb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nb.c b/src/nb.c
index 12d6ca0..f5689f1 100644
--- a/src/nb.c
+++ b/src/nb.c
@@ -363,8 +363,9 @@ static void restore(CR_Region *r, StringView repo_arg, const size_t id,
   initiateRestore(metadata, id, full_path);
 
   const ChangeSummary changes = printMetadataChanges(metadata, NULL);
-  if(containsChanges(&changes) && printf("\n") == 1)
+  if(containsChanges(&changes))
   {
+    printf("\n");
     ensureUserConsent("restore?", allocatorWrapOneSingleGrowableBuffer(r));
     finishRestore(metadata, id, repo_arg);
   }
-- 
2.43.0


From 05fdf573b6b213b3e6026864755b693b0299bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 05/20] fix: don't treat failed regex matching as a mismatch

regexec() may run out of memory. Treating this as a mismatch silently
excludes files from backups or wipes their history.
---
 src/safe-wrappers.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index 375221a..1bc9369 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -835,5 +835,12 @@ const regex_t *sRegexCompile(CR_Region *r, StringView expression,
 
 bool sRegexIsMatching(const regex_t *regex, StringView string)
 {
-  return regexec(regex, nullTerminate(string), 0, NULL, 0) == 0;
+  const int result = regexec(regex, nullTerminate(string), 0, NULL, 0);
+  if(result != 0 && result != REG_NOMATCH)
+  {
+    die("failed to match regular expression against \"" PRI_STR "\"",
+        STR_FMT(string));
+  }
+
+  return result == 0;
 }
-- 
2.43.0


From cdb39e408eef1d323e886fdfba59dd83e4d589b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 06/20] fix: sync restored files before setting their timestamp

A power loss during or after a restore was able to preserve size and
timestamp of a restored file, but not its content. This went unnoticed by
further restores and backups.
---
 src/restore.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/restore.c b/src/restore.c
index 44f138d..9b2e43d 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -270,6 +270,19 @@ void initiateRestore(Metadata *metadata, const size_t id, StringView path)
   }
 }
 
+/** Closes a restored file after writing its content to disk. Otherwise a
+  power loss could destroy the content, but preserve the size and timestamp.
+  Neither a repeated restore nor a backup would be able to notice that. */
+static void closeRestoredFile(FileStream *writer, StringView path)
+{
+  if(!fTodisk(writer))
+  {
+    fDestroy(writer);
+    dieErrno("failed to flush/sync \"" PRI_STR "\"", STR_FMT(path));
+  }
+  sFclose(writer);
+}
+
 /** Restores a regular file. It will not restore metadata like timestamp,
   owner and permissions.
 
@@ -300,13 +313,13 @@ void restoreFile(StringView path, const RegularFileInfo *info,
     }
 
     repoReaderClose(reader);
-    sFclose(writer);
+    closeRestoredFile(writer, path);
   }
   else
   {
     FileStream *writer = sFopenWrite(path);
     sFwrite(info->hash, info->size, writer);
-    sFclose(writer);
+    closeRestoredFile(writer, path);
   }
 }
 
-- 
2.43.0


From 5a41446f00365458dd775adf1eb861a42df08555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 07/20] fix: don't follow symlinks when restoring files over
 them

If a restored path was replaced by a symlink in the meantime, the restore
wrote trough it and overwrote the file it points to, or failed if the
symlink was dangling. Symlinks to directories are still followed.
---
 src/restore.c       |  4 +++-
 src/safe-wrappers.c | 22 ++++++++++++++++++++++
 src/safe-wrappers.h |  1 +
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index 9b2e43d..3fb4257 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -132,7 +132,9 @@ static void checkAndHandleChanges(AllocatorPair *allocator_pair,
   if(could_exist && sPathExists(node->path))
   {
     const struct stat stats =
-      state->type == PST_symlink ? sLStat(node->path) : sStat(node->path);
+      state->type == PST_directory && sLeadsToDirectory(node->path)
+      ? sStat(node->path)
+      : sLStat(node->path);
 
     handleFiletypeChanges(node, state, stats);
     if(backupHintNoPol(node->hint) == BH_none)
diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index 1bc9369..f34d1c8 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -397,6 +397,28 @@ bool sPathExists(StringView path)
   return exists;
 }
 
+/** Returns true if the given path is a directory or a symlink which leads to
+  one. Terminates the program on any unexpected errors. */
+bool sLeadsToDirectory(StringView path)
+{
+  const int old_errno = errno;
+  struct stat stats;
+
+  if(stat(nullTerminate(path), &stats) != 0)
+  {
+    if(errno != ENOENT && errno != ENOTDIR && errno != ELOOP &&
+       errno != ENAMETOOLONG)
+    {
+      dieErrno("failed to access \"" PRI_STR "\"", STR_FMT(path));
+    }
+
+    errno = old_errno;
+    return false;
+  }
+
+  return S_ISDIR(stats.st_mode);
+}
+
 /** Safe wrapper around stat(). */
 struct stat sStat(StringView path)
 {
diff --git a/src/safe-wrappers.h b/src/safe-wrappers.h
index a46e615..2618020 100644
--- a/src/safe-wrappers.h
+++ b/src/safe-wrappers.h
@@ -40,6 +40,7 @@ extern StringView sDirGetNext(DirIterator *dir);
 extern void sDirClose(DirIterator *dir);
 
 extern bool sPathExists(StringView path);
+extern bool sLeadsToDirectory(StringView path);
 extern struct stat sStat(StringView path);
 extern struct stat sLStat(StringView path);
 extern void sMkdir(StringView path);
-- 
2.43.0


From 6aeb800a1902f198860bc83a898794c5a71550ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 08/20] fix: preserve setuid and setgid bits while restoring
 owners

Changing the owner or content of a file resets these bits, which got lost
if the permissions didn't differ before restoring.
---
 src/restore.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index 3fb4257..c834520 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -408,7 +408,9 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
         sChown(node->path, state->uid, state->gid);
       }
     }
-    if(node->hint & BH_permissions_changed)
+    /* Changing the owner resets the setuid and setgid bits. Without root
+       privileges, the same applies to writing the content below. */
+    if(node->hint & (BH_owner_changed | BH_permissions_changed))
     {
       if(state->type == PST_regular_file)
       {
@@ -425,6 +427,7 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
       if(state->type == PST_regular_file)
       {
         restoreFile(node->path, &state->metadata.file_info, repo_path);
+        sChmod(node->path, state->metadata.file_info.permission_bits);
         sUtime(node->path, state->metadata.file_info.modification_time);
       }
       else if(state->type == PST_symlink)
-- 
2.43.0


From fb435715dd209dadf2e7d8394671fcbe150fabbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 09/20] fix: ignore combined attribute changes of unselected
 directories

Changes to parent directories not selected by any rule are neither backed
up on their own nor restored, and thus not worth asking for. This was
only recognized for certain combinations of changed attributes. A restore
asked over and over again without restoring anything.
---
 src/informations.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/informations.c b/src/informations.c
index eeb7101..cf58118 100644
--- a/src/informations.c
+++ b/src/informations.c
@@ -133,6 +133,16 @@ static const PathState *getExistingState(const PathNode *node)
   return &node->history->state;
 }
 
+/** Returns true if the given hint represents only changes of the owner,
+  permissions or timestamp, in any combination. */
+static bool onlyAttributesChanged(const BackupHint hint)
+{
+  const unsigned int attributes =
+    BH_owner_changed | BH_permissions_changed | BH_timestamp_changed;
+
+  return (hint & attributes) != 0 && (hint & ~attributes) == 0;
+}
+
 /** Increment the attribute counter in the given change struct based on the
   specified hint. */
 static void incrementExtraChangedAttributes(ChangeSummary *changes,
@@ -194,9 +204,7 @@ static void addNode(const PathNode *node, ChangeSummary *changes,
     incrementExtraChangedAttributes(changes, hint);
   }
   else if(node->hint > BH_unchanged &&
-          (node->policy != BPOL_none ||
-           (node->hint < BH_owner_changed ||
-            node->hint > BH_timestamp_changed)))
+          (node->policy != BPOL_none || !onlyAttributesChanged(node->hint)))
   {
     changes->other_changes_exist = true;
     changes->affects_parent_timestamp |=
@@ -545,9 +553,7 @@ static ChangeSummary recursePrintOverTree(const Metadata *metadata,
     }
     else if(print && node->hint > BH_unchanged &&
             !(node->policy == BPOL_none &&
-              (node->hint == BH_added ||
-               (node->hint >= BH_owner_changed &&
-                node->hint <= BH_timestamp_changed))))
+              (node->hint == BH_added || onlyAttributesChanged(node->hint))))
     {
       const bool print_subnodes =
         backupHintNoPol(node->hint) > BH_other_to_directory;
-- 
2.43.0


From b641769172e26690c0fe5c3c31ca50d289603208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 10/20] fix: keep paths restorable if their parent becomes a
 directory

If an unselected parent of a selected path was stored as file or symlink
and is now a directory, its outdated state was kept. Everything backed up
below it couldn't be restored.
---
 src/backup.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index 7880d93..6037c82 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -376,7 +376,8 @@ static void handleNodeChanges(AllocatorPair *allocator_pair,
   {
     applyNodeChanges(allocator_pair, node, state, result.stats);
   }
-  else if(result.policy != BPOL_none)
+  /* Without a policy only directories are needed to reach their subnodes. */
+  else if(result.policy != BPOL_none || result.type == SRT_directory)
   {
     setPathHistoryState(allocator_pair->a, state, result);
   }
-- 
2.43.0


From ddf095e09d76db3f073433e68b3b489a44baae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 11/20] fix: keep paths found again below a directory which
 loses its history

---
 src/backup.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/backup.c b/src/backup.c
index 6037c82..a4063b8 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -520,6 +520,17 @@ static SearchResultType initiateMetadataRecursively(
 
     metadata->total_path_count = sSizeAdd(metadata->total_path_count, 1);
   }
+  else if(backupHintNoPol(node->hint) == BH_not_part_of_repository)
+  {
+    /* The node was already wiped during this backup because its parent lost
+       its history, but the path exists again. */
+    node->hint = BH_added;
+    node->policy = result.policy;
+    node->history =
+      buildPathHistoryPoint(allocator_pair->a, metadata, result);
+
+    metadata->total_path_count = sSizeAdd(metadata->total_path_count, 1);
+  }
   else
   {
     handleFoundNode(allocator_pair, metadata, node, result);
-- 
2.43.0


From ecc6358715e33a85cb4e9e693afc54a78ffcb004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 12/20] fix: don't store files modified between hashing and
 copying them

Such files were stored under the hash of their previous content, which left
a corrupted file in the repository.
---
 src/backup.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index a4063b8..c6c9a9c 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -3,6 +3,7 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include "BLAKE2/blake2.h"
 #include "CRegion/alloc-growable.h"
 
 #include "backup-helpers.h"
@@ -632,12 +633,16 @@ static void copyFileIntoRepo(PathNode *node, StringView repo_path,
 
   io_buffer = CR_EnsureCapacity(io_buffer, blocksize);
 
+  blake2b_state hash_state;
+  blake2b_init(&hash_state, FILE_HASH_SIZE);
+
   while(bytes_left > 0)
   {
     const size_t bytes_to_read =
       bytes_left > blocksize ? blocksize : bytes_left;
 
     sFread(io_buffer, bytes_to_read, reader);
+    blake2b_update(&hash_state, io_buffer, bytes_to_read);
     repoWriterWrite(io_buffer, bytes_to_read, writer);
 
     bytes_left -= bytes_to_read;
@@ -646,7 +651,12 @@ static void copyFileIntoRepo(PathNode *node, StringView repo_path,
   const bool stream_not_at_end = sFbytesLeft(reader);
   sFclose(reader);
 
-  if(stream_not_at_end)
+  uint8_t hash[FILE_HASH_SIZE];
+  blake2b_final(&hash_state, hash, FILE_HASH_SIZE);
+
+  /* The stored file must match the hash calculated from an earlier read. */
+  if(stream_not_at_end ||
+     memcmp(hash, file_info->hash, FILE_HASH_SIZE) != 0)
   {
     die("file has changed during backup: \"" PRI_STR "\"",
         STR_FMT(node->path));
-- 
2.43.0


From c9c7ae0a825825f10e023a8b2cd6567c8ef3dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:07 +0000
Subject: [PATCH 13/20] fix: don't recurse for every skipped directory entry

Directories with many ignored or unselected entries made the backup crash
with a stack overflow.
---
 src/search.c | 115 +++++++++++++++++++++++++++------------------------
 1 file changed, 60 insertions(+), 55 deletions(-)

diff --git a/src/search.c b/src/search.c
index 0675775..62d5e1b 100644
--- a/src/search.c
+++ b/src/search.c
@@ -241,6 +241,21 @@ static bool nodeMatches(const SearchNode *node, StringView string)
   return strIsEqual(node->name, string);
 }
 
+static bool matchesIgnoreExpressions(const SearchIterator *iterator)
+{
+  for(RegexList *element = iterator->ignore_expressions; element != NULL;
+      element = element->next)
+  {
+    if(sRegexIsMatching(element->regex, iterator->current_path))
+    {
+      element->has_matched = true;
+      return true;
+    }
+  }
+
+  return false;
+}
+
 /** Completes a search step by querying the next file from the currently
   active directory stream. If this file is a directory, a recursion step
   into it will be initialized.
@@ -252,62 +267,54 @@ static bool nodeMatches(const SearchNode *node, StringView string)
 */
 static SearchResult finishSearchStep(SearchIterator *iterator)
 {
-  StringView entry = sDirGetNext(iterator->state.access.search.dir);
-  if(strIsEmpty(entry))
+  /* Loop over skipped entries to not grow the stack with every entry. */
+  while(true)
   {
-    sDirClose(iterator->state.access.search.dir);
-    return finishDirectory(iterator);
-  }
+    StringView entry = sDirGetNext(iterator->state.access.search.dir);
+    if(strIsEmpty(entry))
+    {
+      sDirClose(iterator->state.access.search.dir);
+      return finishDirectory(iterator);
+    }
 
-  /* Create new path for matching. */
-  StringView dir_entry_name = strSplitPath(entry).tail;
-  replaceCurrentFilename(iterator, dir_entry_name);
+    /* Create new path for matching. */
+    StringView dir_entry_name = strSplitPath(entry).tail;
+    replaceCurrentFilename(iterator, dir_entry_name);
 
-  /* Match subnodes against dir_entry. */
-  SearchNode *matched_node = NULL;
-  for(SearchNode *node = iterator->state.access.search.subnodes;
-      node != NULL; node = node->next)
-  {
-    if(nodeMatches(node, dir_entry_name))
+    /* Match subnodes against dir_entry. */
+    SearchNode *matched_node = NULL;
+    for(SearchNode *node = iterator->state.access.search.subnodes;
+        node != NULL; node = node->next)
     {
-      if(matched_node == NULL)
-      {
-        matched_node = node;
-      }
-      else
+      if(nodeMatches(node, dir_entry_name))
       {
-        warnNodeMatches(node, dir_entry_name);
-        warnNodeMatches(matched_node, dir_entry_name);
-        die("ambiguous rules for path: \"" PRI_STR "\"",
-            STR_FMT(iterator->current_path));
+        if(matched_node == NULL)
+        {
+          matched_node = node;
+        }
+        else
+        {
+          warnNodeMatches(node, dir_entry_name);
+          warnNodeMatches(matched_node, dir_entry_name);
+          die("ambiguous rules for path: \"" PRI_STR "\"",
+              STR_FMT(iterator->current_path));
+        }
       }
     }
-  }
 
-  if(matched_node != NULL)
-  {
-    return finishNodeStep(iterator, matched_node, matched_node->policy);
-  }
-
-  /* Skip current path, if no fallback policy was defined. */
-  if(iterator->state.access.search.fallback_policy == BPOL_none)
-  {
-    return finishSearchStep(iterator);
-  }
+    if(matched_node != NULL)
+    {
+      return finishNodeStep(iterator, matched_node, matched_node->policy);
+    }
 
-  /* Match against ignore expressions. */
-  for(RegexList *element = iterator->ignore_expressions; element != NULL;
-      element = element->next)
-  {
-    if(sRegexIsMatching(element->regex, iterator->current_path))
+    /* Skip current path, if no fallback policy was defined. */
+    if(iterator->state.access.search.fallback_policy != BPOL_none &&
+       !matchesIgnoreExpressions(iterator))
     {
-      element->has_matched = true;
-      return finishSearchStep(iterator);
+      return finishNodeStep(iterator, NULL,
+                            iterator->state.access.search.fallback_policy);
     }
   }
-
-  return finishNodeStep(iterator, NULL,
-                        iterator->state.access.search.fallback_policy);
 }
 
 /** Completes a search step by directly accessing next node available in
@@ -319,22 +326,20 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
 */
 static SearchResult finishCurrentNode(SearchIterator *iterator)
 {
-  if(iterator->state.access.current_node == NULL)
+  while(iterator->state.access.current_node != NULL)
   {
-    return finishDirectory(iterator);
-  }
-
-  SearchNode *node = iterator->state.access.current_node;
-  iterator->state.access.current_node = node->next;
+    SearchNode *node = iterator->state.access.current_node;
+    iterator->state.access.current_node = node->next;
 
-  replaceCurrentFilename(iterator, node->name);
+    replaceCurrentFilename(iterator, node->name);
 
-  if(sPathExists(iterator->current_path))
-  {
-    return finishNodeStep(iterator, node, node->policy);
+    if(sPathExists(iterator->current_path))
+    {
+      return finishNodeStep(iterator, node, node->policy);
+    }
   }
 
-  return finishCurrentNode(iterator);
+  return finishDirectory(iterator);
 }
 
 /** Creates a new SearchIterator for searching the filesystem.
-- 
2.43.0


From 1b44d840538e1f6930ec866064649d8dbaf78d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:24 +0000
Subject: [PATCH 14/20] fix: keep tracked states restorable when a directory
 above them becomes tracked

---
 src/backup.c | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/backup.c b/src/backup.c
index c6c9a9c..4b3befa 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -245,6 +245,39 @@ static void markAsRemovedRecursively(Metadata *metadata, PathNode *node,
   }
 }
 
+/** Finds the oldest backup in which a tracked path below the given node
+  existed.
+
+  @param node The node of which the subnodes should be searched.
+  @param oldest The oldest backup known so far.
+
+  @return The oldest backup, which can be the one passed as argument.
+*/
+static Backup *findOldestTrackedBackup(const PathNode *node,
+                                       Backup *oldest)
+{
+  for(const PathNode *subnode = node->subnodes; subnode != NULL;
+      subnode = subnode->next)
+  {
+    if(subnode->policy == BPOL_track)
+    {
+      for(const PathHistory *point = subnode->history; point != NULL;
+          point = point->next)
+      {
+        if(point->state.type != PST_non_existing &&
+           point->backup->id > oldest->id)
+        {
+          oldest = point->backup;
+        }
+      }
+    }
+
+    oldest = findOldestTrackedBackup(subnode, oldest);
+  }
+
+  return oldest;
+}
+
 /** Checks and handles policy changes.
 
   @param metadata The metadata of the current backup.
@@ -286,6 +319,15 @@ static void handlePolicyChanges(Metadata *metadata, PathNode *node,
       }
     }
   }
+  else if(policy == BPOL_track &&
+          node->history->state.type == PST_directory)
+  {
+    /* Keep older states of tracked subnodes reachable. */
+    Backup *oldest = findOldestTrackedBackup(node, node->history->backup);
+    oldest->ref_count = sSizeAdd(oldest->ref_count, 1);
+    node->history->backup->ref_count--;
+    node->history->backup = oldest;
+  }
 
   node->policy = policy;
 }
-- 
2.43.0


From 490d9c6ebc181998fa39a85905f434d8477996e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:24 +0000
Subject: [PATCH 15/20] fix: treat removed paths below tracked symlinks like
 those below tracked files

---
 src/backup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index 4b3befa..3a0eb4f 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -609,7 +609,7 @@ static SearchResultType initiateMetadataRecursively(
     }
   }
   else if(result.policy == BPOL_track &&
-          node->history->state.type == PST_regular_file)
+          node->history->state.type != PST_directory)
   {
     for(PathNode *subnode = node->subnodes; subnode != NULL;
         subnode = subnode->next)
-- 
2.43.0


From ea9c0dcef54e126e478cacfb4155f9164b4f9c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:36 +0000
Subject: [PATCH 16/20] fix: reject metadata containing policies or histories
 which nb never writes

---
 src/metadata.c | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/metadata.c b/src/metadata.c
index 6cde6cf..4ec6c0d 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -371,6 +371,44 @@ static void writePathHistoryList(const PathHistory *starting_point,
   }
 }
 
+/** Terminates the program with an error message if the policy or history of
+  the given node could not have been written by this program.
+
+  @param node The node to check, which was just read.
+  @param metadata_path The path to the metadata file, for printing useful
+  error messages.
+*/
+static void assertValidNode(const PathNode *node, StringView metadata_path)
+{
+  if(node->policy != BPOL_none && node->policy != BPOL_copy &&
+     node->policy != BPOL_mirror && node->policy != BPOL_track)
+  {
+    die("invalid policy for \"" PRI_STR "\" in \"" PRI_STR "\"",
+        STR_FMT(node->path), STR_FMT(metadata_path));
+  }
+
+  if(node->history == NULL)
+  {
+    die("path without history \"" PRI_STR "\": \"" PRI_STR "\"",
+        STR_FMT(node->path), STR_FMT(metadata_path));
+  }
+
+  for(const PathHistory *point = node->history; point != NULL;
+      point = point->next)
+  {
+    /* Only tracked paths can be removed, and not more than once in a row. */
+    const bool is_only_point = point == node->history && point->next == NULL;
+    if(point->state.type == PST_non_existing &&
+       (node->policy != BPOL_track || is_only_point ||
+        (point->next != NULL &&
+         point->next->state.type == PST_non_existing)))
+    {
+      die("invalid history of \"" PRI_STR "\" in \"" PRI_STR "\"",
+          STR_FMT(node->path), STR_FMT(metadata_path));
+    }
+  }
+}
+
 /** Reads the subnodes of the given parent node recursively.
 
   @param content The content of the file from which the subnodes should be
@@ -443,6 +481,7 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
     node->policy = read8(content, reader_position, metadata_path);
     node->history = readFullPathHistory(
       region_wrapper, content, reader_position, metadata_path, metadata);
+    assertValidNode(node, metadata_path);
 
     node->subnodes =
       readPathSubnodes(region_wrapper, content, reader_position,
-- 
2.43.0


From 0d0228c2292c1a8a18bbe255c9054d90771ed507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:41 +0000
Subject: [PATCH 17/20] fix: reject metadata with excessively nested
 directories instead of exhausting the stack

---
 src/metadata.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/metadata.c b/src/metadata.c
index 4ec6c0d..0e225d1 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -474,6 +474,13 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
       parent_node == NULL ? str("") : parent_node->path;
     strSet(&node->path, strAppendPath(parent_path, name, region_wrapper));
 
+    /* Prevents exhausting the stack via excessively nested directories. */
+    if(node->path.length >= PATH_MAX)
+    {
+      die("contains a path which is too long: \"" PRI_STR "\"",
+          STR_FMT(metadata_path));
+    }
+
     /* Read other node variables. */
     strTableMap(metadata->path_table, node->path, node);
 
-- 
2.43.0


From d00f5f765fb090b62267c06a953ece2e647396fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:33 +0000
Subject: [PATCH 18/20] fix: print the restored states instead of the latest
 ones

The summary printed before restoring an older backup used to take file types,
symlink targets, sizes and item counts from the latest backup.
---
 src/restore.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/restore.c b/src/restore.c
index c834520..da4e2e9 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -45,6 +45,23 @@ static const PathState *searchExistingPathState(const PathNode *node,
   return state;
 }
 
+/** Drops all history points of the given node which are newer than the
+  specified backup. This ensures that everything which looks at the latest
+  state of the node, e.g. the printed change summary, will see the state that
+  gets restored.
+
+  @param node The node to update. It must have existed during the specified
+  backup.
+  @param id The id of the backup to restore.
+*/
+static void dropNewerHistory(PathNode *node, const size_t id)
+{
+  while(node->policy == BPOL_track && node->history->backup->id < id)
+  {
+    node->history = node->history->next;
+  }
+}
+
 /** Wrapper around searchExistingPathState(), which terminates the program
   if the state doesn't exist. */
 static const PathState *findExistingPathState(const PathNode *node,
@@ -160,6 +177,7 @@ static void checkAndHandleChangesRecursively(AllocatorPair *allocator_pair,
                                              const size_t id,
                                              bool could_exist)
 {
+  dropNewerHistory(node, id);
   checkAndHandleChanges(allocator_pair, node, state, could_exist);
   if(state->type != PST_directory)
   {
@@ -220,6 +238,7 @@ static void initiateRestoreRecursively(AllocatorPair *allocator_pair,
             STR_FMT(node->path));
       }
 
+      dropNewerHistory(node, id);
       checkAndHandleChanges(allocator_pair, node, state, could_exist);
 
       const bool subnode_could_exist = could_exist &&
-- 
2.43.0


From 0d746991f8e93d07eb47fac91511cac22370cc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 19/20] fix: print item counts when replacing special files
 with directories

The items below such a directory are not listed individually, so the summary
printed before restoring did not mention them at all.
---
 src/informations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/informations.c b/src/informations.c
index cf58118..165027f 100644
--- a/src/informations.c
+++ b/src/informations.c
@@ -436,7 +436,7 @@ static void printNode(const PathNode *node, const ChangeSummary *summary,
   if(existing_state->type == PST_directory)
   {
     if(hint == BH_added || hint == BH_regular_to_directory ||
-       hint == BH_symlink_to_directory)
+       hint == BH_symlink_to_directory || hint == BH_other_to_directory)
     {
       printPrefix(&has_printed_details);
       printChangeDetail(summary->new_items, "+");
-- 
2.43.0


From 676dcaa77a662933e94b4b02b1a8d85e45c8650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 20/20] fix: don't discard the repository if its path has
 trailing slashes

The names of files to preserve were compared with names cut out of their
path at the length of the repository path as given, while listed paths do
not contain its trailing slashes (since fb14722). Every backup or gc run
with such a path discarded everything.
---
 src/garbage-collector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/garbage-collector.c b/src/garbage-collector.c
index 7b2d8b9..a5eeb01 100644
--- a/src/garbage-collector.c
+++ b/src/garbage-collector.c
@@ -113,7 +113,7 @@ GCStatistics collectGarbageProgress(const Metadata *metadata,
   CR_Region *r = CR_RegionNew();
 
   GCContext ctx = {
-    .repo_path = repo_path,
+    .repo_path = strStripTrailingSlashes(repo_path),
     .paths_to_preserve = strTableNew(r),
     .progress_callback = progress_callback,
     .callback_user_data = callback_user_data,
-- 
2.43.0

