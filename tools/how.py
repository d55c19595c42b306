HOW = {
"C01": """The drivers' write interfaces (posix, sftp, and for object stores the single request that makes an object visible) are followed from open to close: the automaton asks for fsync before rename, for rename
only from the temporary name, for a directory sync after it, and that every failing system call leaves the function by a throw. The flags that relax this (`noAtomic`, `noSyncFile`, `noSyncPath`) are followed
through every caller of `storageNewWriteP`, and those who set them are compared with the list of those allowed to (call sites classified by what they write).""",
"C02": """`infoNewLoad` and the loaders are flow graphs in which a normal return needs the comparison of format and checksum; the save functions are compared with the checksum filter (every value that is written
passes it). Load attempts are decided by the argument of each attempt (main file, then copy). Reconstruction of backup.info has its own rules.""",
"C03": """Writer / reader pairing: each save function (info files, manifest sections, packed file entries, backup.info entries) yields a table key → field, type, condition; each load function the same; the tables
must be inverse, in order where the format is ordered, and a value that is left out must be what a load without it yields.""",
"C04": """archive-push, its asynchronous process and the worker: success (normal return, ok status file) needs the event "pushed to each repository of the list"; errors caught per repository must reach the throw.""",
"C05": """All paths to the write of a segment pass the search of all repositories, the comparison of the checksum, and the comparison of system identifier and version with archive.info of that repository.""",
"C06": """Return guards: `archive-get` returns 0 only after the delivery of a complete file and 1 only where the lookup found nothing in a usable repository; candidates keep repository, id, cipher and checksum together.""",
"C07": """Order of effects in the flow graph of `cmdBackup` from the copy results to the save of backup.info: results, validation, path syncs, final manifest, history, info.""",
"C08": """Filter chains of the copy are reconstructed (checksum, page check, compression, encryption, size) and their order and results are compared with the fields of the result; reasons not to copy are return guards.""",
"C09": """Flow graph of an online backup: start, list, copy, stop, WAL check, with the tests of primary and standby, of time lines and of pg_control as guards.""",
"C10": """Return guards on the manifest found and, per file kept, on what was compared.""",
"C11": """Guards on each assignment of a reference in the manifest, and on the choice of the prior backup.""",
"C12": """Return guards on the reasons to keep a file, filter chains of the restore, and "each file of the manifest becomes a job".""",
"C13": """No destructive effect (write, remove, mkdir, chown, chmod, link of the target, found over the call graph of the storage interface) is reachable in `cmdRestore` before the checks.""",
"C14": """Order of the events: removal of pg_control, restore under a temporary name, syncs, rename, sync.""",
"C15": """Guards on each removal and change by the cleaning callback, and the completeness of the walk over targets and links.""",
"C16": """Tables of what each mapping changes in the manifest, and the loop structure of the pairwise comparison of links (start index, end, and the order it relies on).""",
"C17": """Return guards on the selected backup, per type of target.""",
"C18": """Construction of the regular expression and the only places that decide to zero a file.""",
"C19": """Per option and version: which settings are written, which are disabled before.""",
"C20": """Guards on each removal of WAL with the range computed, per retention type, and the loops that count backups.""",
"C21": """Guards on each removal of backups, history and links, and order of save and removal.""",
"C22": """create, upgrade, delete: guards on each save and each removal, fields compared, order of removal.""",
"C23": """Which commands test the stop file (table of commands against the entry points that change a repository), how its name is formed, what is signalled.""",
"C24": """Typestate of the lock file descriptor in lock.c (open, lock, content, keep / close, remove while locked) and, over the command table, which commands need which locks.""",
"C25": """Typestate of a job and of a client in the parallel executor; jobs and results are the same object on all paths.""",
"C26": """Request / response pairing in client and server, session identifiers as terms, and the conditions for the reuse of a process.""",
"C27": """Index discipline: the repository index of each option lookup, storage, key and info file is resolved to a term and must be the one of the loop or of the result it came from.""",
"C28": """Every write to the repository is classified (call sites of the write interface) and needs an encryption filter with the key of its kind; keys are followed by kind from where they are created to where they
are used; the cipher filter is checked as a typestate.""",
"C29": """The option table gives the secrets; their values are followed (terms, parameters, fields) to log, error, help, command line and request text; redaction lists are compared with the headers and queries set.""",
"C30": """Return guards on a session that is authenticated: which comparison of which name with which certificate entry; guards on the authorization of a client and on SFTP authentication by kind of host key check.""",
"C32": """Every handler of any error in the program (57 of them) is walked: no path may leave it without a throw, a read of the error, a log or an assignment. Every call of a system call (60 functions) must have its
result used, and a return that looks like success may not follow a failure whose errno was not looked at. Exit status and child status are return guards.""",
"C33": """For 37 pairs of a function that writes a message and the function that reads it, the product of the two control flow graphs over their pack calls is explored (helpers that are handed the pack are
inlined, constants and null values that were sent decide the reader's branches): every path of the writer must be a path of the reader. For each pair of calls that meet, the names that flow into the value (fields,
options, parameters) are compared with what it is used for on the other side (table of meanings, parameter positions of constructors and storage drivers, fields of the same name).""",
"C31": """Return guards on `verifyOk` (end reached, checksum equal, size equal) and on a usable manifest; order of the filters; typestate of each file of a manifest (job, known result, or no content) and of each
element of the work lists; per result, which counter, list and status must be set before the next one; parameters of the job against the fields of the manifest, per kind of file.""",
"C34": """Each assignment of an end-of-data flag (14 readers, 4 decompressors, cipher, filter group) must be under the condition with which its source reports the end; each list function must go on while the storage
reports more (marker, page token, queue of subdirectories), hand every entry to the callback, and treat an error of the system call as one.""",
"C35": """Every way out of manifestBuildInfo() that does not throw must have added the entry or carry the literals of one listed reason (a path-sensitive analysis with one literal per name, place, version and
list); the regular expressions are taken from the source and compared with a fixed list of names; a relation is removed from the manifest only after a look for its own init fork, or when id and path are those of the
last one looked for.""",
"C36": """The call graph (direct calls, callbacks whose address is taken, interface slots) from the function of each such command must not contain any function that changes a storage or hands out one for writing, nor a
system call that changes a file outside of the storage drivers; the dispatch in main() is checked path-sensitively; each getter of a storage for writing returns only when the dry run is known to be off.""",
"C37": """Every way around the loop over the pages must have put the page on the list of errors or carry the literals of one accepted reason (all words zero, checksum equal, page read again and different); the
block number and the offset of the second read are compared as terms; the result of the filter is followed to the manifest, the warning and backup.info; guards on each assignment of the option.""",
"C38": """A typestate over cmdCheck() with everything inlined: per loop (stanzas, clusters, repositories) a literal that there is another one, which only the work on that one may take back, and one that there is none, which must
hold when the loop is left; arguments of the look for the segment against the switch and the repository of the loop; guards on the return of checkDbConfig() and checkStanzaInfo().""",
"C39": """Guards on the return of pgClientQuery() and pgClientOpen() over the results of libpq; typestate of values and of loops over rows and columns; the order of the reads from an answer is compared with the order of the names in the text of
the query; guards on each assignment of a role in dbGet().""",
"C40": """Queries over cfgParse() and cfgFileLoad() with the lookups kept as calls: which conditions dominate each place that stores a given value, by the source it came from; which ways through the graph lead from a rule
(depends on, range, list, required) to the next option without the branch that says the value is fine or the error; that no way leads from a less specific section to a more specific one; that what is moved when a group of options
is removed is moved for keys and values alike. What the rule tables say is an assumption; C29 compares them between the commands.""",
"C41": """Queries over blockIncrProcess(), blockMapWrite(), blockMapNewRead(), blockDeltaNew(), blockDeltaNext() and blockChecksumProcess(): from each event (a block hashed, stored, cleared; a super block closed; a part handed on)
to the next, which ways miss an effect (entry, counter, offset, flag) or do it twice or in the wrong order; the values written to entries, offsets and sizes are compared as terms. For the map the numbers written and the numbers read
are classed by the field they carry and must agree in flag bit and shift; flags must be set whenever the number is not zero. That equal checksums mean equal blocks is an assumption.""",
"C42": """Queries over ioWrite(), ioWriteClose(), ioWriteFlush(), ioWriteSeek(), ioReadInternal(), ioRead(), ioReadSmall(), ioReadLineParam(), ioReadFlush(), ioReadDrain(), ioLimitRead(), ioBufferProcess(), ioFilterGroupOpen(),
ioFilterGroupProcess(), ioFilterGroupClose() and the default driver of storageReadMulti: from each event (data processed by the filters, a buffer written, cleared or filled, a filter called, a range recorded or left) to the next, which
ways miss an effect, do it twice, or do it in the wrong order, apart from the branches on which the effect is not due (buffer not full, input used up, filter not done, no gap); amounts copied, positions, limits of ranges and gaps are
compared as sums of their parts. What each filter does with its data is not part of this property (see C08, C28, C41), and neither is a position past the last flush, which restore never uses.""",
}
