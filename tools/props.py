FLOWT = "path-sensitive typestate/dataflow over inlined clang control flow graphs"
NOTE = "Every path of the analysed flow graphs (loops folded, values of locals and branch conditions tracked symbolically) satisfies the listed rules. Trusted: clang's AST/CFG, the extractor, the rule tables; library and operating system calls behave as documented."
PROPS = []


def P(id, title, statement, over, q, why, files, mech, technique=FLOWT, note=NOTE, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, technique=technique, note=note, **kw))


P("C01", "A completed file write is durable and appears all at once",
  "When a write to a repository, spool, lock or data path completes without error, the content was written to a temporary name, synced, closed and only then renamed to its final name, and the "
  "containing directory was synced afterwards, unless the caller asked for a non-atomic or unsynced write. A failed or short write, sync, close or rename is always an error, and an unfinished "
  "write never shows up under the final name. Only writers of data that is rebuilt or synced later (restored cluster files, spool segments, backup file copies) ask for less.",
  "cx", "all files, all crash points between the system calls of a write, every failing system call",
  "tests look at the file after a successful write; they never crash between two system calls and see no syncs",
  ["src/storage/posix/write.c", "src/storage/posix/storage.c", "src/storage/sftp/write.c", "src/storage/s3/write.c", "src/storage/azure/write.c", "src/storage/gcs/write.c", "src/storage/remote/write.c"],
  [("write close", "src/storage/posix/write.c"), ("path sync", "src/storage/posix/storage.c")])

P("C02", "Info files and manifests are verified on load and kept in two copies",
  "An info file or manifest is accepted only when its format is the supported one and its stored checksum covers and matches its whole content; otherwise the load fails. Each save of archive.info, "
  "backup.info or a final manifest writes a complete checksummed main file and an identical copy, and a load that finds the main file missing or damaged uses the copy before giving up.",
  "cix", "all file contents, crash points between the two copies, damage to either copy",
  "tests damage a handful of files; they cannot show that every value is covered by the checksum or that all load paths verify",
  ["src/info/info.c", "src/info/infoArchive.c", "src/info/infoBackup.c", "src/info/manifest/store.c.inc"],
  [("load with verification", "src/info/info.c"), ("save with checksum", "src/info/info.c")])

P("C04", "archive-push reports success only for WAL that every repository holds",
  "archive-push (and the asynchronous process for each segment) reports success only when every configured repository holds the complete file, or when the configured queue limit was exceeded and the "
  "file is deliberately dropped. An error of any one repository, an error found before the transfer and an error of the asynchronous process make the push of that file fail, whatever the other "
  "repositories did. Nothing is pushed or acknowledged while a stop file exists.",
  "sxf", "all repository lists, all failures of any subset of repositories, all results of the parallel workers",
  "tests sample a few failing repositories; the property is about every subset and every point of failure",
  ["src/command/archive/push/push.c", "src/command/archive/push/file.c", "src/command/archive/common.c"],
  [("per repository error list", "src/command/archive/push/file.c"), ("async status files", "src/command/archive/common.c")])

P("C05", "archive-push never replaces archived WAL or archives another cluster's WAL",
  "A WAL segment is written to a repository only when that repository holds no copy of it; when a copy with another checksum exists the push fails, and the stored name carries the checksum of the whole "
  "content. With the header check enabled, a segment (partial or complete) whose header names another PostgreSQL version or system identifier than the stanza is never archived, and a repository whose current history does not match "
  "the cluster's control file (or the other repositories) is never used.",
  "ih", "all segments, all repository contents and histories",
  "tests use a few segments and headers; the property quantifies over all contents and repositories",
  ["src/command/archive/push/push.c", "src/command/archive/push/file.c", "src/command/archive/find.c"],
  [("header check", "src/command/archive/push/file.c"), ("duplicate check", "src/command/archive/push/file.c")])

P("C03", "Metadata survives a save and load unchanged",
  "Every field that a save of archive.info, backup.info or a manifest (files, links, paths, targets, databases, backup options, defaults) writes is read back by the load of that file into the same "
  "field with the same meaning, in an order the load accepts, whatever combination of optional values is present. A value is left out of a save only when a load without it yields that value, and an attribute that equals its "
  "section default is restored from that same default. The packed in-memory form of a manifest file entry restores every attribute of the entry.",
  "i", "all manifests and info files, all combinations of optional attributes and defaults",
  "tests compare a few hand written files; omitted defaults, rare flag combinations and reordered keys are never all exercised",
  ["src/info/manifest/serialize.c.inc", "src/info/manifest/manifest.c", "src/info/infoBackup.c", "src/info/infoPg.c"],
  [("manifest save and load", "src/info/manifest/serialize.c.inc"), ("packed file entry", "src/info/manifest/manifest.c")],
  technique="writer/reader correspondence over key and field effects of save and load functions")

P("C06", "archive-get delivers complete matching files and never invents a missing one",
  "archive-get reports success only when the requested file was completely copied (decrypted with the key of the repository it was found in, and decompressed) to the destination, from an archive whose system "
  "identifier and version match the cluster. It reports a file as missing only after a lookup that did not fail confirmed it; when no repository could be searched, when candidates with different checksums exist, "
  "or when all candidates fail to copy, it is an error. The asynchronous process puts a segment in the queue under its final name only after a complete transfer and turns every failure into an error status.",
  "six", "all repository contents, all subsets of failing repositories, all results of parallel workers",
  "a wrong 'missing' makes PostgreSQL end recovery early without an error; tests sample few failing combinations",
  ["src/command/archive/get/get.c", "src/command/archive/get/file.c", "src/command/archive/get/protocol.c"],
  [("candidate lookup", "src/command/archive/get/get.c"), ("copy of candidates", "src/command/archive/get/file.c")])

P("C07", "A backup is listed only after all of it is stored and synced",
  "The final manifest of a backup and its entry in backup.info are written only after every copy job finished without error and its result was put into the manifest, files that vanished were taken "
  "out of it, the complete manifest passed strict validation, was saved, and every path of the backup (bundles and the history included) was synced where the storage supports it. backup.info comes "
  "last. When backup.info is rebuilt from the repository a backup is added only if its final manifest exists and belongs to the same cluster, and one without its manifest is taken off the list with "
  "all backups that depend on it.",
  "cx", "all crash points during backup completion, all outcomes of copy jobs",
  "tests inspect the repository after a successful backup; a wrong order only shows when the process or host dies between two steps",
  ["src/command/backup/backup.c", "src/command/backup/process.c.inc", "src/command/backup/complete.c.inc", "src/info/infoBackup.c"],
  [("completion", "src/command/backup/complete.c.inc"), ("job results", "src/command/backup/process.c.inc")])

P("C08", "The manifest records exactly what was stored for each file",
  "For each file of a backup the recorded size and checksum are those of the original content as it was read, the recorded repository size and checksum are those of the bytes stored after "
  "compression, block increments and encryption, and the whole content up to end of file is stored. Content is compressed before it is encrypted, page checksums are checked on the original "
  "content, and an encrypted repository receives only encrypted content. A file is left uncopied only if size and checksum equal those of a copy that exists (in a referenced backup, or re-read "
  "from the resumed one), and only files that may vanish are allowed to be missing.",
  "isx", "all file contents and sizes, files changing while they are read, all compression, cipher, bundle and block increment settings",
  "a wrong value goes unnoticed until a restore or verify of exactly that file; tests sample a few combinations of settings",
  ["src/command/backup/file.c.inc", "src/command/backup/process.c.inc", "src/command/backup/backup.c"],
  [("file copy", "src/command/backup/file.c.inc"), ("manifest update", "src/command/backup/process.c.inc")])

P("C09", "A backup is of the right cluster, bracketed by start/stop, with all its WAL",
  "A backup is only taken when the cluster's version and system identifier match the stanza, and offline only if the cluster is not running (or forced). An online backup lists and copies files only "
  "between backup start and backup stop, includes pg_control, stores the label file (and tablespace map) returned by stop, and records the positions start and stop returned. Copying starts in a later "
  "second than the one the files were listed in. A standby is read only after it replayed and checkpointed the start on the same timeline, and a promotion noticed before stop is an error. With "
  "archive-check on, the backup is listed only after every WAL segment from start to stop was found in the archive of the repository.",
  "shfx", "all interleavings with the running cluster, all option combinations",
  "tests replay scripted database sessions; an inconsistent backup shows only on restore",
  ["src/command/backup/backup.c", "src/command/backup/db.c.inc", "src/command/backup/complete.c.inc", "src/command/backup/process.c.inc", "src/db/db.c", "src/command/archive/find.c"],
  [("start and stop", "src/command/backup/db.c.inc"), ("WAL check", "src/command/backup/complete.c.inc")])

P("C10", "Resume reuses only compatible unfinished backups and verified files",
  "A backup resumes only the latest backup directory, only if that backup never completed, resume is enabled, it is a full backup made by the same version, of the same type, prior and compression, and "
  "its manifest copy loads with a valid checksum; otherwise that unfinished directory is removed, and a completed backup is never removed. A stored file is kept only if both manifests list it, a "
  "checksum was recorded, the size is unchanged, the time stamp is unchanged or content will be compared, and it is compressed as configured; all else is removed. Kept files take over all recorded "
  "attributes and the key, and are marked to be read again.",
  "chi", "all contents a crashed backup may leave behind, all option changes between the two runs",
  "tests resume from a few prepared directories; a wrongly kept file corrupts the backup silently",
  ["src/command/backup/resume.c.inc"],
  [("candidate", "src/command/backup/resume.c.inc"), ("file reuse", "src/command/backup/resume.c.inc")])

P("C11", "Differential and incremental backups reference only unchanged files",
  "A differential or incremental backup builds on the latest listed backup of the same cluster (a full one for a differential), read from its final verified manifest; without one it becomes full. A "
  "file is referenced instead of copied only if size and time stamp equal those of the prior backup (or both are empty) and content comparison is off, and then everything recorded about the stored "
  "copy is taken over, the reference naming the backup that holds it. Time stamps in the future or going backwards, a size change without a time change, a timeline switch or a changed online option "
  "turn content comparison on. Compression type and key follow the prior backup.",
  "hi", "all backup histories, all file changes between backups",
  "tests build short histories with regular clocks; a wrong reference is found only when restoring that file",
  ["src/command/backup/incr.c.inc", "src/info/manifest/manifest.c"],
  [("prior selection", "src/command/backup/incr.c.inc"), ("references", "src/info/manifest/manifest.c")])

P("C12", "Every restored file has the content the manifest recorded for it",
  "Each file a restore writes, from its own repository file, from a bundle or from block incrementals, is hashed as written and compared with the manifest checksum, and a difference is an error. A "
  "file already there is kept only if it is empty in the backup too, or its size and checksum equal those of the manifest, or, with force, its size and time stamp do. Every file of the manifest is "
  "kept, zeroed or copied, with the offset, size and block parameters the manifest records for it.",
  "ixh", "all repository contents, all states of the target directory",
  "tests restore undamaged repositories onto a few target states",
  ["src/command/restore/file.c.inc", "src/command/restore/process.c.inc", "src/command/restore/protocol.c"],
  [("content check", "src/command/restore/file.c.inc"), ("job", "src/command/restore/process.c.inc")])

P("C13", "Restore refuses a target before it has changed anything in it",
  "A restore changes the data directory, tablespaces or link targets only after all of them were checked: PostgreSQL is not running, the paths exist, belong to a user and mode that permit the restore, "
  "and are empty unless delta or force is given. With delta or force an existing data directory is used only if it holds PG_VERSION or the manifest of an interrupted restore; otherwise delta and "
  "force are switched off. Nothing is removed or written before the backup, its manifest and the mapping have been loaded and validated.",
  "ic", "all states of the target directories, a refusal at every point",
  "tests check that errors are raised, not that the directory is untouched when they are",
  ["src/command/restore/restore.c", "src/command/restore/clean.c.inc", "src/command/restore/validate.c.inc"],
  [("checks before changes", "src/command/restore/restore.c"), ("target checks", "src/command/restore/clean.c.inc")])

P("C14", "An interrupted restore cannot be started: pg_control goes first, comes last",
  "Before a restore changes anything else pg_control is removed, it is restored under a temporary name, and renamed only after all files were restored without error and all paths (including tablespaces "
  "and linked directories) were synced. After the rename its directory is synced. The manifest of the restore is saved before the first change and removed only at the end. Without recovery "
  "(type none with online backup disabled recovery) the checkpoint is left invalid.",
  "cx", "a crash at every point of a restore",
  "tests never stop a restore half way; a cluster that starts with half its files is silent corruption",
  ["src/command/restore/restore.c", "src/command/restore/process.c.inc", "src/command/restore/clean.c.inc"],
  [("removal", "src/command/restore/clean.c.inc"), ("rename and sync", "src/command/restore/restore.c")])

P("C15", "Delta restore removes exactly what is not part of the backup",
  "When restoring over existing files, every entry in the data directory, tablespaces and linked directories that the manifest does not list with the same type is removed, and nothing else is: not "
  "files, paths or links of the manifest, not the restore manifest, not recovery settings that type preserve keeps, and nothing reached through links that are not part of the backup. Every path and "
  "link of the manifest exists with its recorded owner, mode and destination before files are restored.",
  "ih", "all target directory contents",
  "tests clean small trees; a left-over relation file or a wrongly removed one corrupts the cluster",
  ["src/command/restore/clean.c.inc"],
  [("clean", "src/command/restore/clean.c.inc"), ("paths and links", "src/command/restore/clean.c.inc")])

P("C16", "Links and tablespaces are restored where asked; overlapping links are refused",
  "The data directory is restored to the configured path, a tablespace to its mapping (or all-map path) with its link changed alike, a link to its mapping, and links not asked for are restored as "
  "directories or files in place. A mapping that names no link or tablespace, names a tablespace as link, or is given twice is refused. At backup, any two links of which one destination equals or "
  "contains the other, wherever they are in the tree, are refused, as are links into the data directory.",
  "if", "all sets of links and mappings",
  "tests map a few links; which pairs of links are compared depends on their number and order",
  ["src/command/restore/remap.c.inc", "src/info/manifest/manifest.c"],
  [("mapping", "src/command/restore/remap.c.inc"), ("overlap", "src/info/manifest/manifest.c")])

P("C17", "Restore selects a backup from which the recovery target can be reached",
  "With a requested set that backup is restored or restore fails. Otherwise, for a time target the latest backup that stopped before that time, for an LSN target the latest that stopped at or before "
  "it, and else the latest backup of the current cluster is chosen, searching the repositories in order; if there is none restore fails. Label, repository and key belong to one another. A target "
  "timeline is accepted only if it is the backup's own or its history forks from the backup's timeline after the backup start.",
  "hif", "all backup histories in all repositories, all targets",
  "tests select from two or three backups",
  ["src/command/restore/select.c.inc", "src/command/restore/timeline.c"],
  [("selection", "src/command/restore/select.c.inc"), ("timeline", "src/command/restore/timeline.c")])

P("C18", "Selective restore zeroes only files of excluded databases",
  "A file is restored as zeroes only if its manifest name lies in the directory of a database excluded by db-include/db-exclude, in the default or another tablespace, and is not PG_VERSION. Databases "
  "asked for that do not exist, or that are system databases, are refused. System databases are always restored unless excluded explicitly. Without these options nothing is zeroed.",
  "if", "all sets of databases, tablespaces and file names",
  "tests use a handful of database ids; an expression that matches a prefix shows only with the right ids",
  ["src/command/restore/select.c.inc", "src/command/restore/process.c.inc"],
  [("expression", "src/command/restore/select.c.inc"), ("zeroing", "src/command/restore/process.c.inc")])

P("C19", "Recovery settings written by restore are complete and replace older ones",
  "After restore the settings file holds every recovery setting asked for (restore_command unless given, target, inclusiveness, action, timeline, archive mode, own recovery-option values) under the "
  "names and in the files of the PostgreSQL version; recovery targets left from earlier restores are disabled; type none and preserve add none; recovery.signal or standby.signal match the type.",
  "if", "all option combinations, all PostgreSQL versions, all prior settings files",
  "tests check some combinations of options and versions",
  ["src/command/restore/config.c.inc"],
  [("options", "src/command/restore/config.c.inc"), ("files", "src/command/restore/config.c.inc")])

P("C20", "Expire keeps all WAL that retained backups and retention need",
  "Expire removes a WAL segment or directory only if it is outside the range of every backup of that cluster that is kept: for each backup up to the retained one its start to stop, and everything from "
  "the start of the oldest backup within archive retention on; with fewer backups than retention, unset retention, differing histories or an explicit limit nothing beyond that is removed, the "
  "archive of the current cluster is never removed as a whole, and history files of retained timelines stay.",
  "hif", "all sets of backups, WAL and retention settings, all histories of clusters",
  "tests have few backups and segments; a boundary off by one removes a segment that only a later restore misses",
  ["src/command/expire/expire.c"],
  [("ranges", "src/command/expire/expire.c"), ("retention", "src/command/expire/expire.c"), ("history", "src/command/expire/expire.c")])

P("C21", "Expire removes only expired backups, in an order safe against interruption",
  "Expire never leaves fewer full or differential backups than configured, never expires the last full backup of a cluster on request, always expires a backup together with all that depend on it "
  "(those first), removes files only of backups that are no longer in the saved backup.info, keeps a resumable backup and the history of unexpired backups, uses only the settings and content of "
  "the repository in question, and changes nothing in a dry run.",
  "hicf", "all sets of backups, all retention settings, interruption at any point, any number of repositories",
  "tests run expire to its end on a few sets; an interruption or a second repository shows what was removed too early",
  ["src/command/expire/expire.c", "src/info/infoBackup.c"],
  [("retention", "src/command/expire/expire.c"), ("order", "src/command/expire/expire.c"), ("dependents", "src/info/infoBackup.c")])


P("C22", "Stanza commands create, upgrade and delete a stanza consistently",
  "stanza-create writes archive.info and backup.info only into a repository without archive and backups, for the cluster that is running, with fresh random keys of at least 48 bytes, different for archive and "
  "backup; it restores a missing info file from its copy and otherwise checks rather than overwrites. stanza-upgrade extends the history exactly when version or system id changed, with a new history id, and "
  "saves only if both files agree. stanza-delete requires a stopped stanza, removes the info files first, then all of this stanza and nothing else.",
  "hicf", "all repository states, interruption at any point, any number of repositories",
  "tests cover some repository states; overwriting an info file shows only in a state they do not have",
  ["src/command/stanza/create.c", "src/command/stanza/upgrade.c", "src/command/stanza/delete.c", "src/command/check/common.c", "src/info/infoPg.c", "src/info/info.c", "src/common/crypto/common.c"],
  [("create", "src/command/stanza/create.c"), ("upgrade", "src/command/stanza/upgrade.c"), ("delete", "src/command/stanza/delete.c")])

P("C23", "stop keeps commands from working on the stanza until start, and only there",
  "While a stop file of the stanza or of all stanzas exists, backup, expire, stanza-create, stanza-upgrade, archive-push and remotes serving commands that change the repository fail before they change "
  "anything. stop writes the file before it terminates processes, terminates (only with --force) every process that holds a lock of that stanza and no process of another stanza; start removes exactly "
  "the file that stop wrote.",
  "shf", "all sets of stanzas, running processes and lock files",
  "tests have one stanza and one process; a stanza whose name begins like another one, or a command that tests too late, is not among them",
  ["src/command/control/stop.c", "src/command/control/start.c", "src/command/lock.c", "src/command/remote/remote.c", "src/common/lock.c"],
  [("stop", "src/command/control/stop.c"), ("commands", "src/command/lock.c"), ("remote", "src/command/remote/remote.c")])

P("C24", "Commands that exclude one another never run at the same time",
  "Every command that changes a stanza holds its exclusive locks (by stanza, type and repository; all of them or none) from before it starts to its end, on the repository host as well; asynchronous "
  "archiving runs once per queue. A lock is taken without waiting, recorded, removed only while still locked, released completely, and reported as held only if the file is locked and valid.",
  "shc", "all interleavings of commands, hosts and crashes",
  "tests acquire locks in one or two processes; races and partly acquired sets need another process at a particular moment",
  ["src/command/lock.c", "src/common/lock.c", "src/config/load.c", "src/command/remote/remote.c", "src/command/exit.c", "src/config/parse.auto.c.inc"],
  [("acquire", "src/common/lock.c"), ("all or none", "src/command/lock.c"), ("start", "src/config/load.c"), ("remote", "src/command/remote/remote.c")])

P("C25", "Parallel jobs: no result is lost, no failure counted as success",
  "A command that distributes work over processes uses a job's result only if the job ended without error; every job's error reaches the command (as an error, an error status or a counted error) with the "
  "code and message that were raised; the command ends its loop only when all jobs are done, after fetching every finished job. The executor gives a process a job only when it is free, records the job "
  "before sending it, marks it done only with its own result or error, and hands each finished job out once.",
  "sx", "all orders in which jobs finish and all jobs that fail",
  "tests run a few jobs in a fixed order; a lost error or result needs a failure at a particular moment",
  ["src/protocol/parallel.c", "src/protocol/parallelJob.c", "src/command/backup/process.c.inc", "src/command/restore/restore.c", "src/command/restore/process.c.inc", "src/command/verify/verify.c",
   "src/command/archive/get/get.c", "src/command/archive/push/push.c"],
  [("executor", "src/protocol/parallel.c"), ("backup", "src/command/backup/process.c.inc"), ("restore", "src/command/restore/restore.c"), ("verify", "src/command/verify/verify.c")])

P("C26", "Protocol: requests, responses and errors are never mixed up or lost",
  "A client talks only to a server that reports the same name, service and version. A response is returned only to the session that asked; responses of other sessions are kept with their data and none is "
  "overwritten. An error on the other side is raised here with its code and message; the server answers every request before it reads the next, with the handler of that command and the data of that "
  "session, and ends only on exit. Clients are reused only for the same kind, storage, host and process; a remote is used exactly when the repository or cluster is not local.",
  "sxi", "all interleavings of sessions, all errors of either side",
  "tests run prepared exchanges; interleaved sessions and errors in between are too many to list",
  ["src/protocol/client.c", "src/protocol/server.c", "src/protocol/helper.c", "src/storage/helper.c"],
  [("client", "src/protocol/client.c"), ("server", "src/protocol/server.c"), ("helper", "src/protocol/helper.c")])

P("C27", "Repositories are kept apart: data, keys and options of one never serve another",
  "Every info file and manifest is read and written with the key of the repository it is in; what was read from one repository is not written to another; commands that work on several repositories use the "
  "storage of the repository in question and not the default one. The storage and key of a repository are built from the options of that repository and kept under its own index. annotate changes the "
  "backup in every repository that has it, and saves it there.",
  "fh", "all numbers of repositories with different settings, keys and contents",
  "tests use one or two repositories with similar settings; mixed indexes show only when they differ",
  ["src/command/annotate/annotate.c", "src/storage/helper.c", "src/storage/s3/helper.c", "src/storage/azure/helper.c", "src/storage/gcs/helper.c", "src/storage/sftp/helper.c", "src/storage/cifs/helper.c",
   "src/config/config.c", "src/command/expire/expire.c", "src/command/archive/push/push.c"],
  [("helpers", "src/storage/helper.c"), ("keys", "src/config/config.c"), ("annotate", "src/command/annotate/annotate.c")])

P("C28", "An encrypted repository holds only encrypted files, each with its own key",
  "Every file a command writes to an encrypted repository is encrypted (blocks and block maps of incremental files, WAL copied into a backup, backup_label and history manifests included); the info files with the "
  "configured passphrase, manifests with the key of backup.info, WAL with the key of archive.info, backup files with the key of the manifest, and they are read with the same. Each file has its own random "
  "salt; every cipher failure, wrong header, missing header or bad last block is an error; the parameters of the filter reach the process that runs it.",
  "ifx", "all files, settings and contents; truncated or foreign files",
  "tests encrypt some files with the same keys; a file written in clear or with another key works until someone looks",
  ["src/common/crypto/cipherBlock.c", "src/common/crypto/spec.c", "src/command/backup/complete.c.inc", "src/command/backup/db.c.inc", "src/command/backup/blockIncr.c", "src/command/archive/push/file.c",
   "src/command/archive/push/push.c", "src/command/archive/get/get.c", "src/command/verify/verify.c", "src/command/manifest/manifest.c", "src/config/config.c"],
  [("cipher", "src/common/crypto/cipherBlock.c"), ("keys", "src/common/crypto/spec.c"), ("files", "src/command/backup/complete.c.inc")])

P("C29", "Secrets stay secret: not in logs, errors, help or command lines",
  "Options that hold a key, token, passphrase or password are marked as secret; a secret is refused as a command line argument, is never passed to another process on its command line, and is not shown by "
  "help or in the options logged when a command begins or fails. What is read from such an option is in no log message or error and in no logged parameter, wherever it is passed. Headers and query values of "
  "requests that carry a secret are hidden when requests are logged or reported, and stay hidden in copies.",
  "ifx", "all options, requests and errors",
  "tests compare some messages; a secret shows up in the message of one error or one log level nobody looked at",
  ["src/config/parse.c", "src/config/exec.c", "src/command/command.c", "src/command/help/help.c", "src/common/io/http/header.c", "src/common/io/http/query.c", "src/common/io/http/request.c",
   "src/storage/s3/storage.c", "src/storage/azure/storage.c", "src/storage/gcs/storage.c", "src/common/crypto/spec.c"],
  [("marks", "src/config/parse.auto.c.inc"), ("command line", "src/config/exec.c"), ("log", "src/command/command.c"), ("requests", "src/common/io/http/request.c")])

P("C30", "Only who is meant: servers are verified and clients are authorized",
  "A TLS server is accepted only with a valid certificate for the name that was connected to (any alternative name, or the common name if there are none; a wildcard stands for one part of a name; no embedded "
  "nulls), unless verification is switched off for that storage; the authority that is configured is the one used, and old protocol versions are refused. A client of the TLS server gets a server only if its "
  "certificate was verified, its name is in the configuration of the server and the stanza it asks for is listed there (or *). Key files that others can read are refused. An SFTP server is sent our "
  "authentication only if its key is accepted by the kind of check that is configured.",
  "ifx", "all certificates, names, keys and settings",
  "tests use a handful of certificates; an attacker picks the one that was not tried",
  ["src/common/io/tls/client.c", "src/common/io/tls/server.c", "src/common/io/tls/common.c", "src/protocol/helper.c", "src/command/server/server.c", "src/storage/s3/helper.c", "src/storage/azure/helper.c",
   "src/storage/gcs/helper.c", "src/storage/sftp/helper.c", "src/storage/sftp/storage.c"],
  [("client", "src/common/io/tls/client.c"), ("server", "src/common/io/tls/server.c"), ("authorization", "src/protocol/helper.c"), ("SFTP", "src/storage/sftp/storage.c")])

P("C32", "Failures are reported: no error is swallowed and the exit status tells",
  "An error of any kind that is caught is thrown again, logged, sent on or noted, never dropped; a command that goes on with the next repository after an error ends in an error. The exit status of a process "
  "is the code of the error that ended it, the result of the command otherwise, and an error after a signal. A child process that ends with a status other than zero or by a signal, or cannot be started, is "
  "an error, also when it is found out while reading or writing. The result of every system call that changes something is looked at, and a failure is an error unless the kind of failure says otherwise.",
  "xs", "all errors at all points, all system calls that fail",
  "tests provoke some failures; a handler or a system call whose failure nobody provoked can lose the error",
  ["src/main.c", "src/command/exit.c", "src/common/exec.c", "src/command/expire/expire.c", "src/command/annotate/annotate.c", "src/protocol/helper.c", "src/storage/posix/storage.c", "src/storage/posix/write.c",
   "src/command/restore/clean.c.inc", "src/common/fork.c"],
  [("exit status", "src/command/exit.c"), ("child processes", "src/common/exec.c"), ("counted errors", "src/command/expire/expire.c")])

P("C33", "What one process sends is what the other receives and uses",
  "The processes of a command, local or remote, exchange parameters, results, errors and filter settings as sequences of typed values. Whatever is written on one side, on every path, is read on the other side in the "
  "same order, with the same types and under conditions that match, to the end; a value that is left out because it equals the default is read back as that default, also when the default moves from one value to the "
  "next; and each value is used for what it meant where it was written: no size is taken for another size, no checksum of the stored file for the one of the original, no option for another option.",
  "xis", "all messages of all commands, all combinations of optional values",
  "tests send messages with a few combinations of optional values, often with equal values in neighbouring fields",
  ["src/command/archive/push/push.c", "src/command/archive/push/protocol.c", "src/command/archive/get/protocol.c", "src/command/backup/protocol.c", "src/command/backup/process.c.inc", "src/command/backup/blockIncr.c",
   "src/command/restore/protocol.c", "src/command/restore/process.c.inc", "src/command/verify/protocol.c", "src/storage/remote/protocol.c", "src/storage/remote/storage.c", "src/protocol/server.c", "src/protocol/client.c"],
  [("backup jobs", "src/command/backup/protocol.c"), ("storage requests", "src/storage/remote/protocol.c"), ("messages", "src/protocol/server.c")],
  technique="synchronised product of the pack calls of writer and reader on their control flow graphs; data flow of the values")

P("C31", "The verify command calls nothing valid that it has not checked",
  "A file of the repository counts as valid for verify only after it was read where it is stored, to the end and through the filters it was written with, and the checksum and the size found are the recorded ones. "
  "Every WAL file and every file of every backup that is asked for is handed out for such a check, or the result of the same file is known from a prior backup, or it has no content of its own; nothing leaves "
  "the work lists before. Every other result, a job that failed and a backup or info file that cannot be read included, is counted as an error, makes the backup invalid and is shown; histories of archive.info, "
  "backup.info and manifests that disagree are errors.",
  "ixs", "all repositories, all damages, all orders of results",
  "tests verify some repositories with some damages; whether a damage of any other kind or place is missed no sample tells",
  ["src/command/verify/verify.c", "src/command/verify/file.c", "src/command/verify/protocol.c"],
  [("file check", "src/command/verify/file.c"), ("work lists and results", "src/command/verify/verify.c")])

P("C34", "A read or list that was cut short is an error, never a smaller result",
  "Whatever is read, from a file, a remote process or an object store, encrypted, compressed or as a whole, ends only where its source says it ends: content with a size ends when it has been read in full, chunked content "
  "with its last chunk, compressed data with its end mark, encrypted data with its last block. Data that ends before is an error. A listing contains every page, every entry and every subdirectory of what "
  "was asked for, in whatever pieces the storage returns it, and an error while listing is not the end of the list.",
  "ix", "all contents, all places where data can end early, all splits into pages and buffers",
  "tests end a few streams early at a few places and list few pages; the place that slips through is another one",
  ["src/common/io/http/response.c", "src/common/io/tls/session.c", "src/common/io/read.c", "src/common/io/filter/group.c", "src/common/compress/gz/decompress.c", "src/common/compress/lz4/decompress.c",
   "src/common/crypto/cipherBlock.c", "src/storage/posix/storage.c", "src/storage/s3/storage.c", "src/storage/azure/storage.c", "src/storage/gcs/storage.c", "src/storage/sftp/storage.c", "src/storage/remote/read.c"],
  [("HTTP content", "src/common/io/http/response.c"), ("filters", "src/common/io/filter/group.c"), ("lists", "src/storage/s3/storage.c")])

P("C35", "A backup leaves out only what PostgreSQL makes anew or the user excludes",
  "Every file, directory and link below the data directory and its tablespaces gets into the manifest of a new backup with its own name, size, time, mode and owner, and every file is marked to be copied unless it is "
  "empty and the backup is bundled. Left out are only: entries that begin with pgsql_tmp; what --exclude names (a path that ends with / loses its contents only); the contents of the transient directories at the top of "
  "the data directory; the files at its top that PostgreSQL or the recovery makes anew in that version; temporary relations and pg_internal.init in the paths of databases; the WAL, only when online; "
  "relations whose own init fork shows that they are unlogged; and special files, with a warning. A link whose destination is missing is an error.",
  "if", "all directory trees, names, versions and options",
  "tests build manifests of a few trees; the file that is lost has a name or a place that none of them has",
  ["src/info/manifest/build.c.inc", "src/info/manifest/manifest.c", "src/command/backup/backup.c"],
  [("what is left out", "src/info/manifest/build.c.inc"), ("unlogged relations and exclusions", "src/info/manifest/manifest.c")])

P("C36", "Commands that only look change nothing, and a dry run writes nothing",
  "info, verify, check, manifest, repo-get, repo-ls, server-ping, help and version never write, create, rename or remove anything in a repository, a data directory or the spool, and never remove a lock file of another "
  "command; each command runs the function of its own only (expire after backup only when expire-auto asks for it). In a dry run, and before it is known whether this is one, no storage can be opened for writing.",
  "ihf", "all states of the repository and options",
  "tests look at the output of these commands for a few repositories, not for what they touch in the others",
  ["src/main.c", "src/storage/helper.c", "src/common/lock.c", "src/command/lock.c", "src/command/info/info.c", "src/command/verify/verify.c", "src/command/manifest/manifest.c", "src/command/repo/get.c", "src/command/repo/ls.c", "src/config/load.c"],
  [("dispatch", "src/main.c"), ("storages for reading and writing", "src/storage/helper.c")])

P("C37", "A bad page never goes unnoticed when page checksums are checked",
  "With checksum-page on, every page of every relation is checked against the checksum of its own block number (counted over all segments); a page is accepted only when it is all zero, its checksum matches, or the same "
  "page, read again from the data directory, has changed since. A file with a bad page, a partial page or a size that is no multiple of the page size is reported as invalid, with all of its bad pages, with a warning, "
  "and the backup is recorded as one with errors in the manifest and in backup.info. The check works on the data before compression and encryption. checksum-page is turned off only when the cluster has no page checksums, "
  "when offline, or because the prior backup had it off.",
  "if", "all pages, positions, segments and page sizes",
  "tests check a handful of pages of the first segment; the bad page is another one",
  ["src/command/backup/pageChecksum.c", "src/command/backup/file.c", "src/command/backup/backup.c", "src/command/backup/process.c.inc", "src/info/manifest/manifest.c", "src/info/infoBackup.c"],
  [("the filter", "src/command/backup/pageChecksum.c"), ("what is recorded", "src/command/backup/backup.c")])

P("C38", "A check that succeeds saw archiving work in every repository",
  "check ends without error only when, for every stanza (each with a configuration of its own), a cluster was found, its data directory could be read, its version, path, archive_mode and archive_command are right, the info "
  "files of every repository agree with each other and with the cluster, and a segment switched on the primary just now (after something was written) was found in the archive of every repository, in the directory of its "
  "current history, within the timeout. A standby alone passes only when no repository is local; without any cluster check fails.",
  "ifh", "all configurations, repositories and states of the clusters",
  "tests run check against scripted clusters with one or two repositories; what is skipped is skipped in another combination",
  ["src/command/check/check.c", "src/command/check/common.c", "src/command/archive/find.c", "src/db/db.c"],
  [("the command", "src/command/check/check.c"), ("settings and info files", "src/command/check/common.c")])

P("C39", "The answers of the database are taken as they are, and of the right cluster",
  "A query returns only with its complete result, of the kind and shape that was asked for; one that failed, timed out, lost its connection or returned something else is an error, and so is a connection that could not be made. "
  "Each value is the one of its row and column, null only when it is null, and each column is used for what the query put there. A cluster in recovery is never taken for the primary, a second primary is an error, "
  "and so is a primary or standby that is required and not found; each cluster is reached with the options and the storage of its own index. A standby is used only when it has replayed the start of the backup, on the same timeline.",
  "ifx", "all answers, failures and configurations",
  "tests replay scripts of the answers they expect; the one misread is another one",
  ["src/postgres/client.c", "src/db/db.c", "src/db/helper.c", "src/db/protocol.c"],
  [("queries", "src/postgres/client.c"), ("roles", "src/db/helper.c"), ("settings", "src/db/db.c")])

P("C40", "The configuration used is the one the user gave",
  "Of an option given more than once the value of the nearest source is used: command line, environment, then the sections of the files from the most specific (the command in the stanza) to the least (global); a nearer value is never "
  "replaced, nor is one that was given. Options, commands, roles or parameters that do not exist, are not valid for the command, contradict or repeat each other on the command line, and secrets there, are errors. A value is used only when it "
  "has the type, range, form and membership its rule asks for and the option it depends on allows it; a default only where nothing was given; a required option without a value is an error. The files the user named must exist, are all "
  "read, in order, and only they. Removing an unused group of options keeps keys and values together.",
  "if", "all command lines, environments and configuration files",
  "tests parse chosen combinations of two or three sources; the option, section or combination that goes wrong is another one",
  ["src/config/parse.c"],
  [("sources and rules", "src/config/parse.c")])
P("C41", "Block incremental: each block is stored or known, and found again",
  "In a block incremental file every block of the file, the partial last one included, gets exactly one entry in the block map. The entry is that of a prior backup only when the checksum of the block at the same place is the same; otherwise "
  "the block itself is stored in this backup before it is dropped, compressed, then encrypted, then measured, and its entry names the backup, bundle, offset of the super block, its size in the repository and of its data, and the number of the "
  "block in it. The map is written after the blocks when a block changed or the file shrank, and is read exactly as it was written. Input and output are handed on completely and once, whatever the sizes of the buffers. On restore every "
  "block that differs from the file in place is read with contiguous reads, each super block to its end, and written where the map says.",
  "ihs", "all files, histories of backups, block and buffer sizes",
  "tests build maps and files of a few blocks with chosen sizes; an error needs a certain sequence of changed and unchanged blocks, super blocks and buffer boundaries",
  ["src/command/backup/blockIncr.c", "src/command/backup/blockMap.c", "src/command/restore/blockDelta.c", "src/command/restore/blockChecksum.c"],
  [("filter that writes blocks and map", "src/command/backup/blockIncr.c"), ("format of the map", "src/command/backup/blockMap.c"), ("reading blocks back", "src/command/restore/blockDelta.c")])
P("C42", "Data passes through reads, filters and writes complete, in order and once",
  "Everything given to a write reaches the driver exactly once and in order, through all filters, whatever the sizes of the buffers; closing a write delivers what the filters still hold before the driver is closed; a seek first writes what was "
  "buffered for the old place. Everything the driver reads goes through the filters exactly once; the end is reported only when the source is at its end and all filters are done; data read ahead (for lines or small reads) is handed out first, "
  "completely and once; a limited read delivers its part and no more. In a group of filters each gets the output of the one before it, gets its input again as long as it needs it, is told of the end only after all data, and its result is recorded. "
  "Requests for the same file are combined only when they are near, ordered and limited, and a combined read delivers exactly the requested ranges, not the bytes between them.",
  "is", "all data, sizes of buffers, filters and ranges",
  "tests push a few strings through chosen buffer sizes; an error needs data that ends at, before or after the boundary of a buffer in a certain filter",
  ["src/common/io/read.c", "src/common/io/write.c", "src/common/io/filter/group.c", "src/common/io/filter/buffer.c", "src/common/io/limitRead.c", "src/storage/readMulti.c"],
  [("reads", "src/common/io/read.c"), ("writes", "src/common/io/write.c"), ("filter groups", "src/common/io/filter/group.c"), ("combined reads", "src/storage/readMulti.c")])
