#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that statements stay readable and diffable)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d["anchors"]["hook_needed"]=None
    P.append(d)

prop("C01","Backup then restore of the newest backup reproduces the selected tree exactly",
 "After a backup that exits successfully, restoring backup 0 onto any later state of the file system (paths deleted, edited, re-owned, re-moded, re-timed, or replaced by another kind of file) recreates every selected regular file, symlink and directory as it was when backed up (an edit is recognised by a changed size or modification time): same kind, bytes, link target, permission bits (incl. setuid/setgid/sticky), owner, group and, for files and directories, modification time in seconds; a symlink standing where a regular file or symlink was recorded is itself replaced and never written through; a symlink to a directory standing where a directory was recorded counts as that directory. Directories that are only implicit parents of configured paths are guaranteed to exist afterwards, not to regain their attributes.",
 ["inputs","histories"],"every pair (state at backup time, damaged state at restore time) of a path, its parent and its child, and every boundary value of size, time, owner, mode and name",
 "tests restore a handful of fixed trees; the pairs of recorded state x current state, and of attribute combinations (e.g. owner changed while setuid is set, file replaced by a link), are never enumerated",
 ["src/backup.c","src/backup-helpers.c","src/restore.c","src/repository.c","src/metadata.c","src/safe-wrappers.c"],
 [("change detection","src/backup-helpers.c applyNodeChanges"),("restore","src/restore.c checkAndHandleChanges, finishRestoreRecursively")])

prop("C02","Tracked paths can be restored as they were at every recorded backup",
 "For a path under the track policy, every backup in which it appeared, changed or vanished is recorded, and restoring that path (or any parent of it) with the number of that backup yields exactly the state it had then: its content and attributes if it existed, or nothing created if it did not. Later backups, garbage collections and further changes never alter or drop such a state as long as the path stays tracked. Numbers count backwards from 0 = newest over the backups that are still referenced; paths that are not tracked yield their only stored state for every number.",
 ["histories","inputs"],"all sequences of file system states of a tracked path and its child, up to a depth, with all numbers restored after each backup",
 "tests pin a few hand-written phases; which older states survive depends on the whole sequence (kind changes, vanish/reappear, unchanged backups in between)",
 ["src/backup.c","src/restore.c","src/metadata.c"],
 [("history extension","src/backup.c handleFoundNode, markAsRemovedRecursively"),("lookup by id","src/restore.c searchPathState"),("renumbering","src/metadata.c")])

prop("C03","Vanished paths are kept under copy and track and dropped under mirror",
 "When a backed-up path has vanished from the file system, the next backup keeps its last state under copy, keeps it with all its history under track (restorable by older numbers, absent in the newest), and forgets it under mirror; what happens to everything below a vanished or replaced path follows the policy that applies to the topmost vanished or replaced path. A path that is still present is never dropped or altered because another one vanished, and paths no longer covered by the configuration or newly matched by an ignore rule are forgotten.",
 ["histories","configurations"],"all histories up to a depth over a parent and child, each under every policy combination, vanishing, reappearing and changing kind",
 "the tests check single removal phases for each policy; combinations of parent/child policies with kind changes and reappearance over several backups are sampled sparsely",
 ["src/backup.c","src/search.c"],
 [("removal handling","src/backup.c handleRemovedPath, handleNotFoundSubnodes, markAsRemovedRecursively, prepareNodeForWiping"),("unneeded implicit parents","src/backup.c initiateMetadataRecursively")])

prop("C04","Changing a path's policy keeps its newest state and loses only reported history",
 "When the configuration assigns a different policy to a path that is already in the repository, the next backup keeps the path's newest state, drops its older history exactly when it leaves the track policy, and says so in the printed report before asking for consent. A path entering the track policy starts its history with the state it had, and no other path is affected.",
 ["histories","configurations"],"all histories up to a depth in which the policy of a parent and child changes between backups, combined with every file system change",
 "policy change tests cover chosen pairs at one point in time; interactions with vanished states and kind changes need histories",
 ["src/backup.c","src/informations.c","src/metadata.c"],
 [("policy change","src/backup.c handlePolicyChanges"),("report","src/informations.c printMetadataChanges")])

prop("C05","A backup killed at any point leaves the old or the new repository, never a mix",
 "If a backup or garbage collection is killed at any instant, the repository still loads and holds either exactly everything it held before or exactly what the finished backup would hold, and every state in it can be restored and passes the integrity check. A later backup or gc succeeds without manual repair, and leaves no trace of the interrupted run.",
 ["crash_points","histories"],"kill before every system call and in the middle of every write of backup and gc runs, from several starting repositories, and again inside the run that follows",
 "tests never kill the program; the guarantee quantifies over every instant of the run",
 ["src/repository.c","src/metadata.c","src/garbage-collector.c","src/nb.c"],
 [("write to temporary file, sync, rename","src/repository.c repoWriterClose"),("metadata written last","src/nb.c backup"),("gc after metadata","src/nb.c backup")])

prop("C06","Power loss at any point never loses data of a completed or earlier backup",
 "Assuming only that synced file data and synced directory entries survive, that renames are atomic and that everything unsynced may be lost, torn or reordered, a power loss at any instant of a backup or gc leaves a repository that loads and holds exactly the old or exactly the new state with every referenced content intact. Once a backup has exited successfully, a power loss at any later moment leaves the new state.",
 ["crash_points","histories"],"every instant of the run, every subset of unsynced directory operations compatible with per-name order, every torn variant of unsynced data; including a kill followed by a rerun followed by power loss",
 "no test simulates a volatile cache; missing or misordered syncs are invisible without it",
 ["src/repository.c","src/safe-wrappers.c","src/metadata.c"],
 [("fdatasync of data before rename, of directories after","src/repository.c repoWriterClose"),("fDatasync","src/safe-wrappers.c")])

prop("C07","I/O failures never turn into false success or a damaged repository",
 "If any file-system operation of a backup, gc, integrity check or restore fails, the command either still fulfils its complete promise or exits non-zero with an error message; it never reports success for incomplete work. After a failed backup or gc the repository holds exactly the old or the new state with all contents intact, and rerunning the command without the fault succeeds.",
 ["fault_sequences","inputs"],"every system call of every command failing with each plausible errno (one fault exhaustively, two in the thorough run), including short writes, errors surfacing only at flush, sync or close, and failing allocations",
 "tests cover permission errors on a few paths; errors surfacing at flush/close/sync/rename are not produced by the suite",
 ["src/safe-wrappers.c","src/repository.c","src/metadata.c","src/restore.c","src/error-handling.c","src/nb.c"],
 [("checked wrappers","src/safe-wrappers.c"),("dieErrno","src/error-handling.c")])

prop("C08","Garbage collection removes exactly the unreferenced repository content",
 "After gc (or the gc at the end of a backup) the repository contains the configuration, the metadata and exactly the stored contents referenced by any recorded state, and nothing else; no referenced content, and nothing outside the repository, is ever removed or altered, not even through symlinks lying in the repository. Running gc again removes nothing, and the reported amount equals the size of the regular files removed.",
 ["inputs","histories"],"all small repositories combined with every set of stray items (files, nested directories, symlinks to inside and outside, names resembling stored content, leftovers of interrupted runs), and any spelling of the repository path",
 "tests place a few stray files in one repository; stray shapes x referenced sets x path spellings are unbounded",
 ["src/garbage-collector.c","src/safe-wrappers.c","src/repository.c"],
 [("reference set","src/garbage-collector.c populateTableRecursively"),("recursive removal","src/safe-wrappers.c sRemoveRecursivelyIf")])

prop("C09","Equal contents are stored once and different contents are never confused",
 "Within a repository, contents that are byte-identical are stored at most once however many paths and recorded states refer to them, and two different contents are never stored as one, even when their size and hash coincide. Contents no longer than a hash are kept without any stored file, and when no distinct place is left the backup fails instead of reusing one.",
 ["inputs","histories"],"all small multisets of contents over several paths and backups, with the hash function weakened so that every collision pattern (up to all 256 places) occurs",
 "real hash collisions cannot be produced by tests; the suite fakes two of them in one order",
 ["src/backup.c","src/repository.c","src/file-hash.c"],
 [("duplicate search with byte comparison","src/backup.c searchFileDuplicates, equalsToStoredFile"),("slots","src/repository.c buildFilePath")])

prop("C10","The integrity check reports exactly the paths whose content is damaged",
 "The integrity check lists a path if and only if at least one content recorded in its history is missing, unreadable as a regular file, shorter, longer, or different from what was recorded; it then exits non-zero, and exits zero reporting a healthy repository otherwise. It modifies nothing in the repository.",
 ["inputs","histories"],"all subsets of stored contents damaged in every way (missing, truncated, extended, flipped at every position, replaced by other kinds) in repositories with shared and colliding contents",
 "tests damage one or two files in fixed ways; sharing between paths and history points is combinatorial",
 ["src/integrity.c","src/file-hash.c","src/nb.c"],
 [("check and cache","src/integrity.c checkIntegrity"),("exit code","src/nb.c runIntegrityCheck")])

prop("C11","The on-disk repository format is stable and round-trips losslessly",
 "Metadata is written in the documented little-endian layout with contents named after their BLAKE2b hash, size and slot, so that repositories written by other releases load unchanged and vice versa. Loading metadata and writing it again preserves every path, policy, recorded state, attribute and backup time; backups no state refers to are dropped and the rest keep their order.",
 ["inputs","histories"],"all metadata structures up to a bound over every policy, kind and boundary value of each field, encoded and decoded by an independent implementation",
 "tests use one written-then-read structure with the same code on both sides, which cannot notice symmetric format changes",
 ["src/metadata.c","src/repository.c","src/file-hash.c"],
 [("encoder/decoder","src/metadata.c metadataLoad, metadataWrite"),("content names","src/repository.c repoBuildRegularFilePath")])

prop("C12","Corrupt metadata is rejected cleanly and never causes damage",
 "Whatever bytes the metadata file contains, every command terminates without memory errors, crashes or endless loops; if the metadata is truncated, has trailing bytes or holds impossible values (unknown kinds or policies, references to backups it does not list, sizes that do not fit, names that are empty, '.' or '..' or contain a slash or NUL) the command exits non-zero with a message and changes nothing in the repository or the file system.",
 ["inputs"],"every truncation, every single-byte substitution and every boundary substitution of length, count, reference, kind and policy fields in a set of repositories, for every command",
 "tests hold a handful of broken files; the input space is every byte position x value",
 ["src/metadata.c","src/safe-math.c","src/restore.c","src/nb.c"],
 [("bounds checks","src/metadata.c read helpers"),("overflow-safe arithmetic","src/safe-math.c")])

prop("C13","Every configuration text is interpreted as documented or rejected",
 "Any configuration file is either accepted with the documented meaning (sections, comments, blank lines, BOM, trailing slashes, patterns introduced by a double slash, inheritance to deeper paths) or rejected with a non-zero exit naming the offending line; rejected are text outside a section, unknown sections, relative paths, '.' or '..' elements, redefinitions, paths with more than 4096 slashes and invalid patterns; NUL bytes are rejected with a message of their own. A rejected configuration leaves the repository and file system untouched.",
 ["inputs","configurations"],"all configuration texts up to a number of lines over an alphabet covering every syntactic form, compared with an independent reading of the documentation",
 "tests hold about thirty config files; order-dependent forms (redefinition, inheritance, late parents) are combinations",
 ["src/search-tree.c","src/str.c","src/safe-wrappers.c"],
 [("parser","src/search-tree.c searchTreeParse, newNode, inheritPolicyToSubnodes")])

prop("C14","Exactly the configured paths are backed up, each under the most specific policy",
 "A backup records exactly the existing regular files, symlinks and directories that the configuration selects: configured paths and everything below them under the most specific matching policy, minus what an ignore pattern matches and no explicit rule names; other kinds of files are skipped. A path matched by two sibling rules makes the backup fail, symlinks are followed only where the configuration names something below them, and implicit parents appear only if something below them is recorded.",
 ["inputs","configurations"],"all small directory trees x all configurations up to a number of rules (literal, pattern, nested, ignore)",
 "tests search one fixed tree with a few configs",
 ["src/search.c","src/search-tree.c","src/backup.c"],
 [("directory walk","src/search.c finishSearchStep, finishCurrentNode, buildSearchResult"),("ignore priority","src/search.c finishSearchStep")])

prop("C15","The printed report is exact and nothing is changed without consent",
 "Before a backup or restore changes anything it prints every new, changed, removed, policy-changed or history-losing item (collapsing only below new or removed or summarized directories as configured) and the new/removed/lost counts, and these are exactly the changes then made. Unless the user answers y or yes, the repository and the restored file system stay byte-for-byte unchanged and the exit code is non-zero; if there is nothing to report, nothing is asked and nothing is changed.",
 ["inputs","histories"],"all change scenarios over small trees x all answer sequences up to a length (y, yes, n, no, others, end of input)",
 "tests compare a few outputs; consent paths are tested for fixed answers only",
 ["src/informations.c","src/nb.c"],
 [("report","src/informations.c printMetadataChanges"),("consent","src/nb.c ensureUserConsent")])

prop("C16","Concurrent nano-backup processes on one repository never interfere",
 "Of several processes started on the same repository, at most one at a time performs a backup, gc, restore or integrity check; the others exit non-zero at once with a message and change nothing. For every interleaving, the repository ends in a state some sequential order of the successful commands would have produced, and a lock never outlives its process.",
 ["schedules"],"all interleavings of two and three processes at system call granularity up to a preemption bound, including kills of a lock holder",
 "tests take the lock twice in one process or two scripted processes; check-then-act races in lock file creation and removal need specific schedules",
 ["src/repository.c","src/nb.c"],
 [("lock file","src/repository.c repoLock, cleanupLockfile"),("lock before load","src/nb.c backup, metadataLoadFromRepo")])

prop("C17","Files changing during a backup never corrupt the repository",
 "If source files are modified, replaced, truncated, extended, removed or created at any moment while a backup runs, the backup either fails with a non-zero exit, leaving the old state, or succeeds with a repository that passes the integrity check and in which every recorded content is one the file really had at some instant of the run. Files that did not change during the run are recorded exactly.",
 ["schedules","inputs"],"every kind of environment step on a source path placed before every system call of a backup run (one step exhaustively, two in the thorough run)",
 "tests cannot place a modification between two particular system calls of the program",
 ["src/backup.c","src/file-hash.c","src/backup-helpers.c"],
 [("mtime re-check and end-of-file checks","src/backup.c addFileToRepo, copyFileIntoRepo"),("hash before copy","src/file-hash.c")],)

prop("C18","Restore touches only what it announced and never the repository",
 "Provided that the repository is not among the restored files and no link in place of a recorded directory leads into it, a restore of a path changes nothing but that path, what is recorded below it, and its recorded parents, and there only what its report listed (plus modification times of directories holding restored entries); existing files that are not recorded are kept unless they lie inside a directory that a recorded file or symlink replaces. Repository contents stay byte-for-byte unchanged, and nothing is ever modified through a symlink standing in place of a recorded file or symlink.",
 ["inputs","histories"],"all recorded states x current states x requested paths over small trees with links to outside locations",
 "tests compare the restored subtree, not the rest of the file system, in a few scenarios",
 ["src/restore.c","src/safe-wrappers.c"],
 [("path selection","src/restore.c initiateRestoreRecursively"),("removal","src/restore.c finishRestoreRecursively, src/safe-wrappers.c sRemoveRecursively")])

prop("C19","An interrupted restore can always be completed by running it again",
 "If a restore is killed or fails at any point, running the same restore again completes it, so that the final state is the same as that of an undisturbed restore, apart from attributes of implicit parent directories. After a successful restore, restoring again reports nothing to do and changes nothing.",
 ["crash_points","fault_sequences"],"a kill before every system call or within every write, and a failure of every system call, of restores over all recorded/current kind pairs",
 "tests never interrupt a restore",
 ["src/restore.c","src/backup-helpers.c"],
 [("re-detection of differences","src/restore.c checkAndHandleChanges")])

prop("C20","A backup without changes reports nothing and writes nothing",
 "Running a backup again without any change to selected files or configuration reports no changes, asks nothing, exits zero and leaves the repository byte-for-byte unchanged. A completed backup followed by changes that are undone again, with or without a backup in between, likewise leads back to reporting nothing, and under mirror to the same recorded states. Exempt are paths kept under copy although they vanished or changed kind and parents of configured paths holding nothing to record: they are listed at every backup, and confirming that again alters neither recorded states nor anything outside the repository; a configuration changed while the directory above a recorded path was replaced may take effect for that path one backup later.",
 ["histories","configurations"],"after every history of backups up to a depth over all kinds and policies, one more backup",
 "tests check this after a few phases; non-convergence appears only in particular histories",
 ["src/backup.c","src/informations.c","src/nb.c"],
 [("unchanged detection","src/backup.c initiateMetadataRecursively"),("containsChanges","src/informations.c")])

prop("C21","Backup, gc and integrity never modify anything outside the repository",
 "Backup, gc and integrity checks create, modify and delete nothing outside the repository directory: no content, attribute, modification time or entry of any other path changes, whatever the tree contains, whatever links and foreign files the repository contains (its own hash directories, temporary file and lock file not being links), and whether the command succeeds, fails or is refused. Integrity checks and refused commands leave the repository itself unchanged too.",
 ["inputs","histories"],"all runs of all scenarios of the other checks' alphabets incl. symlinks between source, repository and outside, and the repository lying inside the backed-up tree",
 "tests compare source trees only occasionally",
 ["src/backup.c","src/garbage-collector.c","src/safe-wrappers.c","src/repository.c"],
 [("read-only source access","src/safe-wrappers.c sFopenRead, sDirOpen"),("repository writes","src/repository.c")])

prop("C22","The documented repository synchronisation is safe at every point",
 "Copying all entries missing from an older copy of a repository into it, then its configuration and metadata, then running gc there (as documented) yields a repository equal to the current one, and the older copy remains fully restorable if the procedure stops before the metadata is replaced. Repeating the procedure after a stop between two files completes it, contents with colliding hashes excluded. This holds because a stored content never changes and its name never denotes different bytes in the two copies.",
 ["histories","crash_points"],"all pairs of an older copy and a later state in backup histories up to a depth, and every prefix of the copy procedure",
 "no test exercises the documented procedure",
 ["README.md","src/repository.c","src/garbage-collector.c"],
 [("immutable content files","src/repository.c repoWriterClose"),("slot assignment","src/backup.c searchFileDuplicates")])

prop("C23","Configuration entries that match nothing are reported, and only those",
 "After the change report a backup names every configured path or pattern that matched nothing, and every ignore or summarize pattern that matched nothing, each with its line, as well as configured parents that were not directories; entries that matched something are never named. These reports never prevent or alter the backup.",
 ["configurations","inputs"],"all small trees x configurations up to a number of rules",
 "tests compare a few outputs",
 ["src/informations.c","src/search.c","src/search-tree.c"],
 [("match flags","src/search.c finishNodeStep, finishSearchStep"),("report","src/informations.c printSearchTreeInfos")])

prop("C24","Command lines are interpreted exactly or refused without effect",
 "Every argument list either runs the documented command on exactly the named repository, backup number and path (relative or absolute, with redundant trailing slashes) or is refused with a non-zero exit and a message. Refused are missing or non-directory repositories, missing configuration or metadata, excess or unknown arguments, numbers that do not fit, and paths not in the backup; they change nothing.",
 ["inputs"],"all argument lists up to four elements over an alphabet of spellings of repositories, commands, numbers (incl. leading zeros and overflow) and paths, from several working directories",
 "tests cover selected argument errors",
 ["src/nb.c","src/safe-wrappers.c","src/str.c"],
 [("dispatch","src/nb.c main"),("number parsing","src/safe-wrappers.c sStringToSize"),("path normalisation","src/str.c")])

prop("C25","Every way of ending releases the lock and leaves no lasting residue",
 "However a command ends - success, refusal, missing consent, error at any point - it leaves the repository unlocked, without a lock file of its own, and usable by the next command; leftovers of an interrupted write are never mistaken for backup content and disappear with the next backup or gc. A foreign or stale lock file that nobody holds and the user may write to does not block anything.",
 ["fault_sequences","crash_points"],"every command x every scenario x a failure or kill at every system call, followed by every command",
 "tests check lock release on normal exits only",
 ["src/repository.c","src/error-handling.c","src/nb.c"],
 [("cleanup on exit","src/repository.c cleanupLockfile, third-party/CRegion"),("temporary file reuse","src/repository.c createRepoWriter")])

prop("C26","Histories of different paths never get mixed up, however many there are",
 "Each recorded state belongs to exactly the path it was taken from, for any number of files in a directory, any depth, and any names, including names that are prefixes of each other or contain unusual bytes; adding, removing or changing one path never alters what is recorded for another. This holds for every seed of the randomised path lookup.",
 ["inputs","histories"],"tree shapes with sibling counts across every growth threshold of the lookup table, depths across every growth threshold of the walk, all pairs from an alphabet of related names, several lookup seeds including fully colliding ones",
 "tests use a dozen paths and one random seed per run",
 ["src/string-table.c","src/backup.c","src/metadata.c","src/search.c","third-party/CRegion"],
 [("lookup table","src/string-table.c"),("walk stack","src/search.c pushCurrentState"),("growable buffers","third-party/CRegion/alloc-growable.c")])

prop("C27","Read-only repositories can be restored from and checked, and nothing else",
 "A repository on a read-only file system can be restored from and checked for integrity exactly as a writable one: same report, same questions, same result, same exit status, without a lock, and by several processes at once. Creating a backup in it and collecting garbage in it is refused with a message and without any effect, as is every command when the lock can't be created or taken for any other reason. A lock file left behind on it makes no difference.",
 ["inputs","fault_sequences","schedules"],"repositories x restore requests with the repository writable and read-only, commands x errors of creating and of taking the lock, two readers switched at every operation",
 "tests lock a repository twice from one process; no test runs on a read-only file system",
 ["src/repository.c","src/main.c"],
 [("lock","src/repository.c repoLock"),("commands","src/main.c")])

prop("C28","Terminals show what redirected output says, and progress is truthful",
 "Whichever of standard input, output and error are terminals, every command does the same and says the same: once colours and control sequences have been carried out, the screen shows exactly what redirected output contains. Streams which are no terminals never receive colours, control sequences or progress displays. Progress never goes backwards, reaches 100% only when the work is done, and ends with the true amounts: the size of what was deleted, or of all distinct contents checked, however the clock behaves, including jumps in either direction.",
 ["inputs","schedules"],"commands and scenes x subsets of the standard streams being terminals x behaviours of the clock",
 "tests never run on a terminal",
 ["src/nb.c","src/colors.c","src/informations.c","src/integrity.c","src/garbage-collector.c"],
 [("progress","src/nb.c printProgress"),("colours","src/colors.c colorPrintf"),("terminal detection","src/safe-wrappers.c sIsTTY")])

prop("C29","Incidental circumstances make no difference",
 "What a command does, says, records and leaves behind depends on the repository, the file system and the arguments alone. The order in which directories list their entries, the preferred block size of file systems, the seed of the path lookup and colliding hashes, short reads, the umask, locale and environment of the process, its working directory and the spelling of the repository's path, the clock (equal times, far future or past, going backwards) and the leftovers of an earlier killed run change neither exit status, nor the lines of output, nor the recorded history, nor restored files; only recorded completion times follow the clock.",
 ["inputs","configurations","histories"],"stories of several backups, restores, garbage collections and integrity checks over all configurations and states, each under every circumstance of a list, compared to the same story under plain circumstances",
 "tests run once, on one file system, in one environment and with a clock that moves forward",
 ["src/search.c","src/backup.c","src/file-hash.c","src/string-table.c","src/restore.c","src/safe-wrappers.c","src/nb.c"],
 [("block sizes","src/file-hash.c fileHash, src/backup.c copyFileIntoRepo and equalsToStoredFile"),("lookup seed","src/string-table.c strTableNew"),("modes of new files","src/restore.c restorePath"),("clock","src/backup.c finishBackup")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P),"properties")
