From 6ced4ad92ac3e53f0933e4d0480fd384f824afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:08 +0000
Subject: [PATCH 01/12] fix: sync the bundle path at the end of a backup

Files in the repository are written without syncing their path because all paths are synced at the end of the backup, but
the bundle path is not in the manifest so it was never synced. After a crash the bundles of a completed backup could be lost.
---
 src/command/backup/process.c.inc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/command/backup/process.c.inc b/src/command/backup/process.c.inc
index 29b9456..91428b8 100644
--- a/src/command/backup/process.c.inc
+++ b/src/command/backup/process.c.inc
@@ -990,6 +990,12 @@ backupProcess(const BackupData *const backupData, Manifest *const manifest, cons
                 if ((backupType == backupTypeFull && !jobData.bundle) || hardLink || storagePathExistsP(storageRepo(), path))
                     storagePathSyncP(storageRepoWrite(), path);
             }
+
+            // Sync the bundle path, which is not in the manifest, if any bundles were written
+            const String *const bundlePath = strNewFmt("%s/" MANIFEST_PATH_BUNDLE, strZ(backupPathExp));
+
+            if (jobData.bundle && storagePathExistsP(storageRepo(), bundlePath))
+                storagePathSyncP(storageRepoWrite(), bundlePath);
         }
     }
     MEM_CONTEXT_TEMP_END();
-- 
2.43.0


From d2324937d3d155b6bcd7bfca122a4243d6e74a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:38 +0000
Subject: [PATCH 02/12] fix: detect a link to the same file as a link other
 than the first in a path

When several file links had destinations in the same path only the first was remembered, so a link to the same file as one of the others was accepted.
---
 src/info/manifest/link.c.inc | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/info/manifest/link.c.inc b/src/info/manifest/link.c.inc
index e82d833..ccf1184 100644
--- a/src/info/manifest/link.c.inc
+++ b/src/info/manifest/link.c.inc
@@ -83,19 +83,31 @@ manifestLinkCheckOne(const Manifest *const this, ManifestLinkCheck *const linkCh
 
             if (link != NULL)
             {
-                // If both links are files make sure they don't link to the same file
+                // If both links are files make sure they don't link to the same file. There may be more than one file link in the path so
+                // check all of them.
                 if (target1->file != NULL && link->file != NULL)
                 {
-                    if (strEq(target1->file, link->file))
+                    for (unsigned int linkIdx = 0; linkIdx < lstSize(linkCheck->linkList); linkIdx++)
                     {
-                        const ManifestTarget *const target2 = manifestTarget(this, link->targetIdx);
+                        const ManifestLinkCheckItem *const linkFile = lstGet(linkCheck->linkList, linkIdx);
 
-                        THROW_FMT(
-                            LinkDestinationError,
-                            "link '%s' (%s/%s) destination is the same file as link '%s' (%s/%s)",
-                            strZ(manifestPathPg(target1->name)), strZ(manifestTargetPath(this, target1)), strZ(target1->file),
-                            strZ(manifestPathPg(target2->name)), strZ(manifestTargetPath(this, target2)), strZ(target2->file));
+                        if (strEq(linkFile->path, path) && strEq(target1->file, linkFile->file))
+                        {
+                            const ManifestTarget *const target2 = manifestTarget(this, linkFile->targetIdx);
+
+                            THROW_FMT(
+                                LinkDestinationError,
+                                "link '%s' (%s/%s) destination is the same file as link '%s' (%s/%s)",
+                                strZ(manifestPathPg(target1->name)), strZ(manifestTargetPath(this, target1)), strZ(target1->file),
+                                strZ(manifestPathPg(target2->name)), strZ(manifestTargetPath(this, target2)), strZ(target2->file));
+                        }
                     }
+
+                    // Add the file link so later links are checked against it
+                    lstAdd(
+                        linkCheck->linkList,
+                        &(ManifestLinkCheckItem){.path = path, .file = target1->file, .targetIdx = targetIdx});
+                    lstSort(linkCheck->linkList, sortOrderAsc);
                 }
                 // Else error because one of the links is a path and cannot link to the same path as another file/path link
                 else
-- 
2.43.0


From f23d6b1e3d9bca8244d6d46fcb84114e8aa96ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:46 +0000
Subject: [PATCH 03/12] fix: keep the backup history of unexpired backups when
 a year is removed

Unexpired backups are always kept in the backup history but removing the
history of an entire year did not check for unexpired backups in the year.
---
 src/command/expire/expire.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/command/expire/expire.c b/src/command/expire/expire.c
index eb78104..6389127 100644
--- a/src/command/expire/expire.c
+++ b/src/command/expire/expire.c
@@ -965,8 +965,17 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
                 // Get all the backup history manifests
                 const String *const historyYear = strLstGet(historyYearList, historyYearIdx);
 
+                // Unexpired backups are always kept in the backup history so a year that contains any cannot be removed entirely
+                bool historyYearCurrent = false;
+
+                for (unsigned int currentIdx = 0; currentIdx < strLstSize(currentBackupList); currentIdx++)
+                {
+                    if (strBeginsWith(strLstGet(currentBackupList, currentIdx), historyYear))
+                        historyYearCurrent = true;
+                }
+
                 // If the entire year is less than the year of the minimum backup to retain, then remove completely the directory
-                if (strCmp(historyYear, strSubN(minBackupLabel, 0, 4)) < 0)
+                if (strCmp(historyYear, strSubN(minBackupLabel, 0, 4)) < 0 && !historyYearCurrent)
                 {
                     LOG_INFO_FMT(
                         "%s: remove expired backup history path %s", cfgOptionGroupName(cfgOptGrpRepo, repoIdx), strZ(historyYear));
@@ -980,7 +989,7 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
                     }
                 }
                 // Else find and remove individual files
-                else if (strEq(historyYear, strSubN(minBackupLabel, 0, 4)))
+                else if (strCmp(historyYear, strSubN(minBackupLabel, 0, 4)) <= 0)
                 {
                     const StringList *const historyList = strLstSort(
                         storageListP(
-- 
2.43.0


From 097426780b8485e6711f951b443f1600e36abf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:47 +0000
Subject: [PATCH 04/12] fix: expire backup history in the repository being
 expired

The history was listed in the default repository but removed from the
repository being expired.
---
 src/command/expire/expire.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/command/expire/expire.c b/src/command/expire/expire.c
index 6389127..c05042f 100644
--- a/src/command/expire/expire.c
+++ b/src/command/expire/expire.c
@@ -957,7 +957,8 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
             // Get all history years
             const StringList *const historyYearList = strLstSort(
                 storageListP(
-                    storageRepo(), STRDEF(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY), .expression = STRDEF("^2[0-9]{3}$")),
+                    storageRepoIdx(repoIdx), STRDEF(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY),
+                    .expression = STRDEF("^2[0-9]{3}$")),
                 sortOrderAsc);
 
             for (unsigned int historyYearIdx = 0; historyYearIdx < strLstSize(historyYearList); historyYearIdx++)
@@ -993,7 +994,8 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
                 {
                     const StringList *const historyList = strLstSort(
                         storageListP(
-                            storageRepo(), strNewFmt(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY "/%s", strZ(historyYear)),
+                            storageRepoIdx(repoIdx),
+                            strNewFmt(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY "/%s", strZ(historyYear)),
                             .expression = strNewFmt(
                                 "%s\\.manifest\\.%s$",
                                 strZ(backupRegExpP(.full = true, .differential = true, .incremental = true, .noAnchorEnd = true)),
-- 
2.43.0


From 1ac1627377a35b955cbf8f51a4ca21bdc53ce0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 05/12] fix: acquire all locks of a command or none of them

The result of each lock was overwritten by that of the next, so a command could run with only the last of its locks, or keep the
first locks after it was told that it has none and then fail with an assertion on the next try.
---
 src/command/lock.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/command/lock.c b/src/command/lock.c
index 68622e4..9fad376 100644
--- a/src/command/lock.c
+++ b/src/command/lock.c
@@ -101,8 +101,13 @@ cmdLockAcquire(const LockAcquireParam param)
     {
         const StringList *const lockList = cfgOptionTest(cfgOptLock) ? strLstNewVarLst(cfgOptionLst(cfgOptLock)) : cmdLockList();
 
-        for (unsigned int lockListIdx = 0; lockListIdx < strLstSize(lockList); lockListIdx++)
+        // Acquire locks until one cannot be acquired
+        for (unsigned int lockListIdx = 0; result && lockListIdx < strLstSize(lockList); lockListIdx++)
             result = lockAcquire(strLstGet(lockList, lockListIdx), param);
+
+        // Release locks that were acquired when not all locks could be acquired
+        if (!result)
+            lockReleaseP(.returnOnNoLock = true);
     }
     MEM_CONTEXT_TEMP_END();
 
-- 
2.43.0


From 8e616dcda13ad9ae65372b06be4ba219089bffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:43 +0000
Subject: [PATCH 06/12] fix: stop --force for a stanza spares stanzas whose
 name begins with its name

Lock files are selected by the prefix STANZA- so stopping stanza db also removed the lock files of stanza db-2 and terminated its
processes.
---
 src/command/control/stop.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/command/control/stop.c b/src/command/control/stop.c
index e720d9b..51badc0 100644
--- a/src/command/control/stop.c
+++ b/src/command/control/stop.c
@@ -14,6 +14,7 @@ Stop Command
 #include "command/control/stop.h"
 #include "common/debug.h"
 #include "common/lock.h"
+#include "common/regExp.h"
 #include "common/type/convert.h"
 #include "config/config.h"
 #include "storage/helper.h"
@@ -61,6 +62,13 @@ cmdStop(void)
                     if (!strEndsWithZ(lockFile, LOCK_FILE_EXT) || (stanzaPrefix != NULL && !strBeginsWith(lockFile, stanzaPrefix)))
                         continue;
 
+                    // Skip the lock files of other stanzas whose names begin with the name of this stanza followed by a dash
+                    if (stanzaPrefix != NULL &&
+                        !regExpMatchOne(STRDEF("^(archive|backup|restore)(-[0-9]+)?\\.lock$"), strSub(lockFile, strSize(stanzaPrefix))))
+                    {
+                        continue;
+                    }
+
                     // Read the lock file
                     const LockReadResult lockResult = lockReadP(lockFile, .remove = true);
 
-- 
2.43.0


From db9e85decfcf3bc0808d12062586588250f9d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:33 +0000
Subject: [PATCH 07/12] fix: annotate writes backup.info to the repository it
 was read from

With several repositories and no --repo option the backup.info of the repository that holds the backup was written to the default
repository, replacing the backup.info there.
---
 src/command/annotate/annotate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/command/annotate/annotate.c b/src/command/annotate/annotate.c
index 08ef356..795bc01 100644
--- a/src/command/annotate/annotate.c
+++ b/src/command/annotate/annotate.c
@@ -72,7 +72,8 @@ cmdAnnotate(void)
                     infoBackupDataAnnotationSet(infoBackup, backupLabel, cfgOptionKv(cfgOptAnnotation));
 
                     // Write the updated backup info
-                    infoBackupSaveFile(infoBackup, storageRepoWrite(), INFO_BACKUP_PATH_FILE_STR, cfgCipherSpecMainIdx(repoIdx));
+                    infoBackupSaveFile(
+                        infoBackup, storageRepoIdxWrite(repoIdx), INFO_BACKUP_PATH_FILE_STR, cfgCipherSpecMainIdx(repoIdx));
                 }
             }
             CATCH_ANY()
-- 
2.43.0


From 6101d9a5652df7bf9f835c7a6f2ac7387bdbd583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:36 +0000
Subject: [PATCH 08/12] fix: do not show the key of an Azure repository when it
 is not a valid SAS

---
 src/storage/azure/storage.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/storage/azure/storage.c b/src/storage/azure/storage.c
index d5be449..e587baa 100644
--- a/src/storage/azure/storage.c
+++ b/src/storage/azure/storage.c
@@ -1077,8 +1077,20 @@ storageAzureNew(
 
             // Parse sas query
             case storageAzureKeyTypeSas:
-                this->sasKey = httpQueryNewStr(key);
+            {
+                TRY_BEGIN()
+                {
+                    this->sasKey = httpQueryNewStr(key);
+                }
+                CATCH(FormatError)
+                {
+                    // Do not use the original error since it contains the key
+                    THROW(FormatError, "invalid SAS key");
+                }
+                TRY_END();
+
                 break;
+            }
         }
 
         // Create the http client used to service requests. Use plain socket for HTTP, TLS for HTTPS.
-- 
2.43.0


From a713325d4bc4ca275dc4525321abc6dd908279d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:41 +0000
Subject: [PATCH 09/12] fix: report an error when reading a directory fails
 part of the way through

readdir() returns NULL both at the end of the directory and on error, so an I/O error while listing a posix path was taken for the end of the list and a partial list was returned as complete.
---
 src/storage/posix/storage.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/storage/posix/storage.c b/src/storage/posix/storage.c
index b9a535c..00b7f0e 100644
--- a/src/storage/posix/storage.c
+++ b/src/storage/posix/storage.c
@@ -224,9 +224,10 @@ storagePosixList(THIS_VOID, const String *const path, const StorageInfoLevel lev
             MEM_CONTEXT_TEMP_RESET_BEGIN()
             {
                 // Read the directory entries
-                const struct dirent *dirEntry = readdir(dir);
+                const struct dirent *dirEntry;
 
-                while (dirEntry != NULL)
+                // Clear errno before each read since NULL is returned both at the end of the directory and on error
+                while ((errno = 0, dirEntry = readdir(dir)) != NULL)
                 {
                     // Always skip . and ..
                     if (!strEqZ(DOT_STR, dirEntry->d_name) && !strEqZ(DOTDOT_STR, dirEntry->d_name))
@@ -249,12 +250,13 @@ storagePosixList(THIS_VOID, const String *const path, const StorageInfoLevel lev
                             storagePosixListEntry(this, result, path, dirEntry->d_name, level);
                     }
 
-                    // Get next entry
-                    dirEntry = readdir(dir);
-
                     // Reset the memory context occasionally so we don't use too much memory or slow down processing
                     MEM_CONTEXT_TEMP_RESET(1000);
                 }
+
+                // An error while reading must not be mistaken for the end of the directory
+                if (errno != 0)
+                    THROW_SYS_ERROR_FMT(FileReadError, STORAGE_ERROR_LIST_INFO, strZ(path));                        // {vm_covered}
             }
             MEM_CONTEXT_TEMP_END();
         }
-- 
2.43.0


From 1b78e13cc98c87da104b8315fc5cce6a8dcdee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:12 +0000
Subject: [PATCH 10/12] fix: report an error when reading an SFTP directory
 fails part of the way through

The loop over libssh2_sftp_readdir_ex() ended the same way on an error as at the end of the directory, so a partial list was returned as complete.
---
 src/storage/sftp/storage.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/storage/sftp/storage.c b/src/storage/sftp/storage.c
index f616a31..00ec397 100644
--- a/src/storage/sftp/storage.c
+++ b/src/storage/sftp/storage.c
@@ -829,6 +829,14 @@ storageSftpList(THIS_VOID, const String *const path, const StorageInfoLevel leve
                     }
                 }
                 while (len > 0 || storageSftpWaitFd(this, len));
+
+                // An error while reading must not be mistaken for the end of the directory
+                if (len < 0 && len != LIBSSH2_ERROR_EAGAIN)
+                {
+                    storageSftpEvalLibSsh2Error(
+                        len, libssh2_sftp_last_error(this->sftpSession), &FileReadError,
+                        strNewFmt(STORAGE_ERROR_LIST_INFO, strZ(path)), NULL);
+                }
             }
             MEM_CONTEXT_TEMP_END();
         }
-- 
2.43.0


From ed40edf70b27c34d3f1761231461724a93ca2f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:26 +0000
Subject: [PATCH 11/12] fix: verify bundled files that a backup references in a
 prior backup

The result of a referenced file was looked up by the name the file has when it is not bundled, so a damaged file in a bundle was never found and a backup that references it was reported as valid.
---
 src/command/verify/verify.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/command/verify/verify.c b/src/command/verify/verify.c
index c4faf44..46b0387 100644
--- a/src/command/verify/verify.c
+++ b/src/command/verify/verify.c
@@ -1034,8 +1034,9 @@ verifyBackup(VerifyJobData *const jobData)
                                 const VerifyBackupResult *const backupResultPrior = lstGet(
                                     jobData->backupResultList, backupPriorIdx);
 
-                                // If the verify-state of the backup is not complete then verify the file
-                                if (!backupResultPrior->fileVerifyComplete)
+                                // If the verify-state of the backup is not complete, or the file is in a bundle (so the result of the
+                                // referenced file cannot be found by name), then verify the file
+                                if (!backupResultPrior->fileVerifyComplete || fileData.bundleId != 0)
                                 {
                                     fileBackupLabel = fileData.reference;
                                 }
-- 
2.43.0


From 453bb546aed7a0abf362a600059baed45513199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:25 +0000
Subject: [PATCH 12/12] fix: do not take a relation for unlogged because of one
 with the same file id in another path

The result of the lookup for the init fork was cached by file id only. File ids are unique only within a database and tablespace, so when the
last relation of a path was unlogged and the first relation of the next path had the same file id the latter was left out of the backup.
---
 src/info/manifest/manifest.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/info/manifest/manifest.c b/src/info/manifest/manifest.c
index d3759f5..2489c5d 100644
--- a/src/info/manifest/manifest.c
+++ b/src/info/manifest/manifest.c
@@ -233,6 +233,7 @@ manifestNewBuild(
             RegExp *relationExp = regExpNew(strNewFmt("^" DB_PATH_EXP "/" RELATION_EXP "$", strZ(buildData.tablespaceId)));
             unsigned int fileIdx = 0;
             char lastRelationFileId[21] = "";                   // Large enough for a 64-bit unsigned integer
+            String *const lastRelationPath = strNew();          // File ids are only unique within a path
             bool lastRelationFileIdUnlogged = false;
 
 #ifdef DEBUG_MEM
@@ -250,6 +251,7 @@ manifestNewBuild(
                     // Get the filename (without path)
                     const char *const fileName = strBaseZ(filePathName);
                     const size_t fileNameSize = strlen(fileName);
+                    const size_t filePathSize = strSize(filePathName) - fileNameSize;
 
                     // Strip off the numeric part of the relation
                     char relationFileId[sizeof(lastRelationFileId)];
@@ -269,16 +271,18 @@ manifestNewBuild(
                     ASSERT(relationFileId[0] != '\0');
 
                     // Store the last relation so it does not need to be found every time
-                    if (strcmp(lastRelationFileId, relationFileId) != 0)
+                    if (strcmp(lastRelationFileId, relationFileId) != 0 || strSize(lastRelationPath) != filePathSize ||
+                        strncmp(strZ(lastRelationPath), strZ(filePathName), filePathSize) != 0)
                     {
                         // Determine if the relation is unlogged
                         String *const relationInit = strNewFmt(
-                            "%.*s%s_init", (int)(strSize(filePathName) - fileNameSize), strZ(filePathName), relationFileId);
+                            "%.*s%s_init", (int)filePathSize, strZ(filePathName), relationFileId);
                         lastRelationFileIdUnlogged = manifestFileExists(this, relationInit);
                         strFree(relationInit);
 
-                        // Save the file id so we don't need to do the lookup next time if it doesn't change
+                        // Save the file id and path so we don't need to do the lookup next time if they don't change
                         memcpy(lastRelationFileId, relationFileId, nameIdx + 1);
+                        strCatZN(strTrunc(lastRelationPath), strZ(filePathName), filePathSize);
                     }
 
                     // If relation is unlogged then remove it
-- 
2.43.0

