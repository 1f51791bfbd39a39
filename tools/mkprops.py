#!/usr/bin/env python3
"""Regenerates properties.jsonl from the definitions below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "An interrupted backup leaves exactly the old or the new history",
 "If a backup run is killed, or the machine loses power, at any point, the repository that is found afterwards can be read and holds either exactly the history from before the run or exactly the history including the new backup. Every backup of that history restores the same paths, contents, types, owners, permissions and modification times as it would have without the interruption. Nothing but leftover files that no backup refers to may be left behind, and they never prevent later commands. (The history before the run is taken to have reached the disk.)",
 ["crash_points", "histories", "inputs"],
 "for every history of earlier backups, every change of the source tree, every system call at which the run is killed or power fails, and every set of un-synced writes the disk then keeps, tears or loses",
 "The tests run every backup to completion; none kills a run or drops un-synced writes, so the write/sync/rename order is never observed.",
 ["src/repository.c", "src/metadata.c", "src/backup.c", "src/garbage-collector.c", "src/nb.c"],
 [("write temp file, fdatasync, rename, fdatasync directory", "src/repository.c repoWriterClose"), ("metadata written last, in one rename", "src/nb.c backup / src/metadata.c metadataWrite"), ("garbage collected only after the metadata is durable", "src/nb.c backup -> runGC")],
 ["nb REPO interrupted, then nb REPO N / integrity / nb REPO"])

prop("C02", "A backup that reported success survives any later power loss",
 "Once a backup run has exited with status 0, no later power failure makes the repository lose it or any earlier backup: whenever the disk keeps only what had been synced by then, every backup in the history restores completely and correctly. This also holds when earlier runs were interrupted or failed, and while later backup, gc, integrity or restore runs are in progress.",
 ["crash_points", "histories", "fault_sequences"],
 "for every history of successful, failed and interrupted runs, every power-failure point after a success, and every loss of un-synced data or directory entries",
 "Tests read back through the page cache of a machine that never fails, so a missing or misplaced sync is invisible to them.",
 ["src/repository.c", "src/safe-wrappers.c", "src/metadata.c", "src/backup.c", "src/garbage-collector.c"],
 [("sync of file data and of each directory on the path to it", "src/repository.c repoWriterClose, src/safe-wrappers.c fTodisk/fDatasync")],
 ["exit status of nb REPO; contents restored from the durable image"])

prop("C03", "A failing system call is never turned into a false success",
 "If any file operation, read, write, sync, close, lock or memory allocation fails or is cut short during a backup, gc, integrity or restore run, then the run either ends with a non-zero exit status and an error message, or produces exactly the repository, restored files and verdict of the run without the failure. It never crashes or hangs, and a failed run leaves the repository's history exactly as it was before or as it would be after the successful run.",
 ["fault_sequences", "inputs", "histories"],
 "for every operation, every call it makes, every error that call can return (EIO, ENOSPC, EACCES, ENOMEM, EMFILE, ...), short reads and writes, and combinations of these",
 "The tests provoke a handful of errors (missing files, directories in place of files); a failing fdatasync, fclose, rename, readdir or malloc at a given call number cannot be produced with real files.",
 ["src/safe-wrappers.c", "src/repository.c", "src/error-handling.c", "src/metadata.c", "src/backup.c", "src/restore.c", "src/integrity.c", "src/garbage-collector.c"],
 [("every libc call wrapped with die-on-failure", "src/safe-wrappers.c"), ("writer destroyed without rename on error", "src/repository.c repoWriterWrite/Close")],
 ["exit status, stderr, repository and restored tree"])

prop("C04", "Restoring reproduces exactly what was backed up",
 "For every tree of regular files, symlinks and directories, restoring a backup - of everything or of one path - with sufficient privileges gives every path that backup contains the type, content, symlink target, owner, group, permission bits and modification time (whole seconds; not for symlinks) it had when it was backed up, whatever the file system looked like before: paths missing, changed (in more than content alone with size and modification time kept), of another type, or with other owners and permissions. Selected parents of a requested path are restored along with it. Paths the backup does not contain are left alone unless they lie below something that had to be replaced by another type. Parent directories no rule selected are created if missing, but never altered. A symlink leading to a directory counts as that directory where the backup contains one: it stays, and restoring happens in the directory it leads to. Requesting a path which that backup does not contain is an error and changes nothing. Hard links are not preserved.",
 ["inputs", "histories"],
 "for every source tree, configuration, backup id and requested path, and every state of the file system at restore time, with arbitrary directory enumeration orders, short reads and buffer sizes of the environment",
 "Tests restore a few fixed trees; sizes around the inline limit and block sizes, set-id bits, unusual names, and combinations of type changes at restore time are not covered.",
 ["src/restore.c", "src/backup.c", "src/metadata.c", "src/repository.c", "src/file-hash.c"],
 [("state comparison and repair", "src/restore.c checkAndHandleChanges / finishRestoreRecursively"), ("serialisation of every attribute", "src/metadata.c")],
 ["file system after nb REPO N [PATH]"])

prop("C05", "Later runs never change the tracked past",
 "As long as a path stays under the track policy, and the directories above it either stay in place or belong to the same tracked tree, every recorded backup keeps restoring that path exactly as it was when that backup was made - including that it did not exist, or had another type - no matter what later backups, configuration edits of other paths, gc runs or interrupted runs do. Each new backup that sees a change adds exactly one new newest id, holding the state found by it, and the older states move up by one id, in order. A backup that no path's state or history refers to any more loses its id.",
 ["histories", "crash_points", "inputs"],
 "for every sequence of source changes, backups, gc runs, configuration changes and interruptions, and every id in the resulting history",
 "Histories in tests are a few fixed steps long; the property is about all sequences, where deletion, re-creation, type change and renumbering interact.",
 ["src/backup.c", "src/metadata.c", "src/restore.c"],
 [("history points are only prepended for tracked nodes", "src/backup.c handleFoundNode, markAsRemovedRecursively"), ("id assignment by reference count", "src/metadata.c metadataWrite")],
 ["nb REPO N for every N after every step"])

prop("C06", "Copy, mirror and removal follow the documented policies",
 "After every backup, the newest id holds for each path under copy, mirror or track its latest state; a file deleted from the system stays restorable under copy, disappears from every id under mirror, and under track disappears from the newest id only. Paths that became ignored or lost their rule are handled the same way in every run of the same history, and moving a path from track to another policy keeps only its latest state. (Not covered: what lies below an unselected parent directory that was itself removed or replaced.)",
 ["histories", "configurations", "inputs"],
 "for every history of file creations, changes, deletions, type changes and configuration edits that move paths between policies, with interrupted runs in between",
 "Policy transitions combined with deletions and type changes form histories far beyond the fixed sequences in the tests.",
 ["src/backup.c", "src/search.c", "src/search-tree.c"],
 [("policy state machine", "src/backup.c handlePolicyChanges/handleRemovedPath/handleNotFoundSubnodes")],
 ["nb REPO N for every N, compared with a reference model"])

prop("C07", "A backup contains exactly the paths the configuration selects",
 "A backup stores every existing regular file, symlink and directory at or below a configured path, plus the parent directories needed to reach them, and nothing else: regular-expression path elements match one path element each, ignore expressions exclude everything they match below a configured path unless an explicit rule names it, deeper rules override the policy of outer ones, and special files are skipped. The selection does not depend on the order in which directories are listed.",
 ["configurations", "inputs", "schedules"],
 "for every configuration of path, regex and ignore rules, every tree, and every order in which the operating system enumerates directories",
 "Tests use one generated tree and one rule set, and real readdir order; the interplay of overlapping rules is only sampled.",
 ["src/search.c", "src/search-tree.c", "src/backup.c"],
 [("search iterator", "src/search.c finishSearchStep/finishCurrentNode"), ("rule tree", "src/search-tree.c")],
 ["metadata and nb REPO 0 after nb REPO on an empty repository"])

prop("C08", "Garbage collection removes all and only what nothing refers to",
 "After a successful gc, or the collection that ends a backup, the repository contains its configuration, metadata, lockfile, every object some recorded backup needs, and nothing else. No gc run - finished, failed, killed or cut off by power loss, over any leftovers - ever removes or alters anything a recorded backup needs.",
 ["crash_points", "fault_sequences", "histories", "inputs"],
 "for every history, every garbage left in the repository (temporary files, stray files, symlinks and nested directories), every interruption point and every failing call",
 "Tests collect a few hand-placed files on a healthy disk; safety must hold at each interruption and for every reachable set of references.",
 ["src/garbage-collector.c", "src/safe-wrappers.c", "src/nb.c"],
 [("reference set built from the whole history", "src/garbage-collector.c"), ("recursive removal that does not follow symlinks", "src/safe-wrappers.c sRemoveRecursivelyIf")],
 ["repository listing after nb REPO gc, restores of every id"])

prop("C09", "The integrity check reports exactly the damaged paths",
 "The integrity command exits with 0 and calls the repository healthy if and only if every stored object needed by any recorded backup is present with its original size and content; otherwise it exits non-zero and lists exactly the paths with at least one damaged or missing object in their history, or, where a whole directory of the repository was replaced by something else, reports that as an error. This holds for every way objects can be damaged on disk, and the command never modifies the repository.",
 ["fault_sequences", "histories", "inputs"],
 "for every history, every subset of objects and every kind of damage: flipped bits at any offset, truncation, extension, swapped objects, deletion, replacement by a directory or symlink",
 "Tests damage a few objects in fixed ways; exactness over arbitrary damage and over shared (deduplicated) objects is not exercised.",
 ["src/integrity.c", "src/file-hash.c", "src/repository.c"],
 [("re-hash of every referenced object", "src/integrity.c checkIntegrity")],
 ["output and exit status of nb REPO integrity"])

prop("C10", "Damaged metadata is rejected cleanly, without memory errors",
 "For every content of the metadata file - truncated at any byte, with bits flipped, bytes replaced, lengths and counters altered or data appended - every command either works with the history it reads or stops with an error message and a non-zero status: no invalid memory access, no crash, no endless loop, and a rejected metadata file and the rest of the repository are left as they were. A truncated metadata file, or one with trailing bytes, is always rejected.",
 ["inputs", "fault_sequences"],
 "for every repository and every corruption of its metadata on disk, for each of backup, gc, integrity and restore",
 "Tests feed around a dozen hand-made broken files; memory safety over all stored byte sequences needs injected storage faults under instrumented execution.",
 ["src/metadata.c", "src/safe-wrappers.c", "src/safe-math.c", "src/allocator.c", "src/str.c"],
 [("bounds-checked reading", "src/metadata.c read* helpers")],
 ["exit status, stderr, sanitizer reports, repository bytes"])

prop("C11", "At most one process uses a repository at a time",
 "Of any number of nb processes started on the same repository in any interleaving, no two ever use its metadata and stored files at the same time; the others stop with an error and change nothing. A lockfile left by a killed process never blocks a later one, and concurrent runs leave the repository as some one-after-another execution of the runs that succeeded would. (On a read-only file system, where nothing can change it, a repository is read without a lock.)",
 ["schedules", "crash_points"],
 "for every interleaving of system calls of two to four processes running backup, gc, integrity and restore, with kills at any point and processes waiting at their prompt",
 "Tests lock from one process, or sequentially; the interleavings of open, lock, unlock, close and remove between processes are not controlled.",
 ["src/repository.c", "src/nb.c"],
 [("lockf on REPO/lockfile, removed on exit", "src/repository.c repoLock/cleanupLockfile")],
 ["overlap of lock-holding intervals, final repository"])

prop("C12", "Files changing during a backup never corrupt the repository",
 "If files and directories of the source tree are modified, replaced, grown, truncated, deleted or created by other programs at any moment of a backup, including while it waits for confirmation, then the run either fails and leaves the history unchanged, or succeeds and leaves a repository whose integrity check is healthy. Earlier backups still restore exactly, and every regular file, symlink and directory in the new one restores to something the path actually was at some moment during the run (the bytes of a file written to while it was read may stem from different moments). A pipe put in place of a file may make the run wait for its writer; stopping it leaves the history unchanged.",
 ["schedules", "inputs", "histories"],
 "for every concurrent mutation of the source tree and every system call of the run between which it happens",
 "A test cannot place a modification between two specific system calls of the running backup.",
 ["src/backup.c", "src/backup-helpers.c", "src/file-hash.c", "src/search.c"],
 [("size, mtime and end-of-file checks around hashing and copying", "src/backup.c addFileToRepo/copyFileIntoRepo/equalsToStoredFile")],
 ["exit status, nb integrity, restored tree"])

prop("C13", "Commands change nothing outside what they are meant to change",
 "Backup and gc never create, change or delete anything outside the repository; integrity changes nothing anywhere except for creating the lockfile; restore changes no byte of the repository and touches only paths the chosen backup contains at, above and below the requested path, and what lies under a replaced path. A run whose prompt is answered with no, or not answered at all, changes nothing apart from its lockfile. Integrity and restore also work when the repository is on a read-only file system; backup and gc fail there with an error.",
 ["inputs", "fault_sequences", "histories"],
 "for every history, tree containing symlinks anywhere, command, answer and failing call",
 "Tests check the few files they expect to change, not that all others are untouched, and cannot mount a file system read-only.",
 ["src/nb.c", "src/restore.c", "src/repository.c", "src/garbage-collector.c", "src/safe-wrappers.c"],
 [("work confined to repository paths; symlinks removed, not followed", "src/garbage-collector.c, src/safe-wrappers.c"), ("consent before any write", "src/nb.c ensureUserConsent")],
 ["recorded mutating file system calls and full before/after comparison"])

prop("C14", "Repeating a backup without changes is a no-op",
 "If nothing in the source tree or configuration changed since the last successful backup, and no copied file is missing from the system, another run asks nothing, exits with 0 and leaves every file of the repository byte for byte as it was; restoring a backup and then backing up again likewise finds nothing to do for the restored paths. Conversely, a run that finds a change of content (with new size or modification time), owner, permission, modification time, type, existence or symlink target always asks and records it. (Not covered: removed unselected parent directories, and rules that match nothing below existing parents, which are reported again by every run.)",
 ["histories", "inputs", "schedules"],
 "for every history, tree and configuration, with other directory enumeration orders, clocks and hash seeds in the second run",
 "Tests check the second run for a few trees in one environment; idempotence over all reachable histories is not sampled.",
 ["src/backup.c", "src/backup-helpers.c", "src/informations.c", "src/nb.c"],
 [("comparison against the last recorded state", "src/backup-helpers.c applyNodeChanges"), ("write only if changes were found", "src/nb.c backup containsChanges")],
 ["exit status, prompt, repository bytes"])

prop("C15", "Equal contents are stored once, different contents never conflated",
 "Every distinct file content larger than the inline limit that the history refers to is stored exactly once in the repository, no matter how many paths, backups or interrupted runs contain it. Files with different contents are never mixed up, even if their hashes and sizes are the same: each restores to its own content, and running out of room for such collisions is reported as an error, not resolved by dropping data. (After one of several contents with the same hash was dropped, another one may be stored again in its place. Rewriting a file in place with another content of the same size and the same hash is not noticed.)",
 ["inputs", "histories", "fault_sequences"],
 "for every set of files, including sets of colliding hashes, over every history of backups, deletions, gc and interruptions",
 "Tests build one fixed set of colliding files; real collisions cannot be produced, and interaction with gc and removal is not covered.",
 ["src/backup.c", "src/repository.c", "src/file-hash.c"],
 [("byte comparison before reuse and slot numbers", "src/backup.c searchFileDuplicates/equalsToStoredFile")],
 ["object files in the repository, restored contents"])

prop("C16", "A restore that was interrupted or failed can simply be repeated",
 "After a restore has been killed, cut off by power loss, or ended by an error at any point, running the same restore again without faults exits with 0 and yields exactly the state an undisturbed restore yields; and no restore exits with 0 unless that state was reached. The attributes of parent directories no rule selects are exempt. The repository is never changed by any of this.",
 ["crash_points", "fault_sequences", "inputs"],
 "for every backup, every state of the file system before the restore, every interruption point and failing call",
 "Tests only run restores that complete; half-restored trees (empty files, missing attributes) are never used as a starting point.",
 ["src/restore.c", "src/backup-helpers.c", "src/safe-wrappers.c"],
 [("comparison with the recorded state before repairing", "src/restore.c checkAndHandleChanges")],
 ["file system after the repeated nb REPO N"])

prop("C17", "The change list shown before confirming is exactly what happens",
 "The list a backup prints before asking names every path, or a directory around it marked as added, removed or changed in type, that the confirmed run then adds to, changes in or removes from the repository, and marks each as added (++), removed (--), erased with its history (xx, ??), changed in content (!!), in attributes (@@), in type (<>) or in policy (::) accordingly; inside directories covered by a summarize expression it gives counts instead. A change of nothing but a modification time is left out where listed changes below explain it. Every printed type, target, count, size and total is the one of what really happens, and nothing is asked if there is nothing to do. The list a restore prints names, in the same manner and with the types, targets, counts and sizes of the restored backup, exactly the paths it then creates, replaces or modifies, apart from unselected parent directories, which come along with what is restored below them.",
 ["histories", "inputs", "schedules"],
 "for every history, tree, configuration and state of the file system, and every directory enumeration order",
 "Tests check printed output for a few scripted scenarios; agreement of the preview with the effect over all histories is not checked.",
 ["src/informations.c", "src/nb.c", "src/backup.c", "src/restore.c"],
 [("hints computed once and used for both printing and acting", "src/backup.c, src/restore.c, src/informations.c printMetadataChanges")],
 ["stdout compared with the difference of the histories / trees before and after"])

prop("C18", "Results do not depend on incidental environment choices",
 "The same sequence of commands on the same trees gives the same exit statuses, the same set of reported changes and the same restorable history, independent of directory enumeration order, preferred block sizes, stdio buffering, hash-table seeds, process ids, initial contents of allocated memory, and the current time other than as recorded completion times - including clocks that stand still or jump backwards between and during runs.",
 ["schedules", "histories", "inputs"],
 "for every history and every pair of environments",
 "All tests run in one environment; they cannot reorder readdir, change st_blksize or move the clock.",
 ["src/string-table.c", "src/search.c", "src/safe-wrappers.c", "src/metadata.c", "src/file-hash.c", "src/nb.c"],
 [("hash table with random seed", "src/string-table.c"), ("block-wise I/O sized by st_blksize", "src/file-hash.c, src/backup.c"), ("time differences", "src/nb.c shouldUpdateProgressLine")],
 ["exit status, sorted output and restored trees of both executions"])

prop("C19", "Any interruption heals with the next ordinary run",
 "After any sequence of kills, power losses and failed runs of backup, gc or restore, the next undisturbed backup run completes with status 0 within a number of steps bounded by the size of the tree, needs no manual cleanup, records the current state of the source tree completely, and leaves no trace of the interruption: the integrity check is healthy and everything unreferenced is gone after the next gc.",
 ["crash_points", "fault_sequences", "histories"],
 "for every sequence of interruptions and faults followed by an undisturbed run",
 "No test starts from a repository in the middle of an interrupted run: stale temporary files, lockfiles, half-created object directories.",
 ["src/repository.c", "src/nb.c", "src/backup.c", "src/garbage-collector.c"],
 [("temporary file overwritten, stale lock ignored, directories created on demand", "src/repository.c")],
 ["exit status and system call count of the next nb REPO; nb REPO integrity; listing after gc"])

prop("C20", "The documented repository synchronisation is safe at every step",
 "Copying a repository over an older copy of it as documented - first all files missing there, then config and metadata, then gc - yields an equivalent repository: every backup of the newer one restores identically from the copy, its integrity check is healthy and it holds no unreferenced files. If the procedure is interrupted between the copying of files, the older copy still has either its own history or the newer one with all of its content, and repeating the procedure completes it. (The older copy holds at least one backup, and no two contents share a hash.)",
 ["crash_points", "histories"],
 "for every pair of an older and a newer state of one repository, including older copies with leftovers, and every interruption point of the procedure",
 "It is documented but not tested at all; it relies on object names never being reused for other contents.",
 ["README.md", "src/repository.c", "src/garbage-collector.c", "src/backup.c"],
 [("content-addressed object names with size and slot", "src/repository.c buildFilePath"), ("gc of the old copy with the new metadata", "src/garbage-collector.c")],
 ["restores, integrity and listing of the synchronised copy"])

prop("C21", "Human readable sizes and safe arithmetic are exact",
 "Printed sizes are the exact byte counts rounded to the unit shown, and every size or counter computation either yields the exact result or stops the program.",
 ["inputs"],
 "for every 64 bit value",
 "The tests check a handful of values.",
 ["src/informations.c", "src/safe-math.c"],
 [("overflow checks", "src/safe-math.c")], ["printed output"])

prop("C22", "An invalid configuration stops a backup before anything is touched",
 "A backup whose configuration file is invalid - missing, damaged, with an unknown section, a line before any section, a path that is not absolute, contains '.' or '..' or is defined twice, a broken regular expression, a null byte, or rules of which two match one path - ends with exit status 1 and an error naming the first offending line (for a redefinition also the earlier one; for ambiguous rules the path and both rules), asks nothing and changes nothing in the repository but its lock file. Every other configuration, whatever its blank lines, comments, trailing slashes, byte order mark or missing last newline, is accepted and means what its lines say; gc, integrity and restore never depend on it. If it is replaced while a backup runs, the backup follows either the old or the new one completely.",
 ["configurations", "inputs", "fault_sequences", "schedules"],
 "for every configuration text, including every damage of a valid one, every history it meets, and every moment of a run at which it is replaced or the run is interrupted",
 "The tests use a fixed list of broken files and only call the parser; nothing checks what a run with such a file leaves behind, or damage and replacement of the file.",
 ["src/search-tree.c", "src/nb.c", "src/search.c", "src/safe-wrappers.c"],
 [("line-wise parser", "src/search-tree.c searchTreeParse"), ("configuration loaded before anything is written", "src/nb.c backup"), ("ambiguous rules", "src/search.c finishSearchStep")],
 ["stderr, exit status, repository after nb REPO"])

prop("C23", "Backups warn about exactly the rules that found nothing to apply to",
 "Before asking for consent, and also when there is nothing to do, a backup prints one warning for each configured path element below which nothing was found (unless an element above it found no directory), for each one with further elements below it that found no directory or not only directories, for each ignore expression that matched no path it was asked about, and for each summarize expression that matched no directory it was asked about - each with its line number, kind and text - and prints no other warnings. An expression that only matched what another expression matched, too, may be reported or not. Restores, gc and integrity checks print no warnings.",
 ["inputs", "configurations", "histories"],
 "for every configuration, every tree and history it is applied to, and every directory enumeration order",
 "A handful of full program tests compare the warnings of fixed trees.",
 ["src/informations.c", "src/search.c", "src/search-tree.c"],
 [("match flags of rules", "src/search.c finishNodeStep, matchesIgnoreExpressions"), ("printed warnings", "src/informations.c printSearchTreeInfos")],
 ["stderr of nb REPO"])

prop("C24", "Open files, memory, disk space and reading stay within bounds",
 "The number of files a run has open at once is bounded by the depth of the deepest directory plus a constant, its memory by the number and length of the paths, recorded states and expressions it deals with and not by the sizes of files; given just this, every command gives the result it gives without limits. A backup succeeds if the disk has room for the data not stored yet and the new metadata. Contents of files whose size and modification time are as recorded under the same policy are neither read by backups nor by restores.",
 ["inputs", "histories", "fault_sequences"],
 "for every tree, history and file size, with limits on open files, memory and disk space as tight as the bounds",
 "Tests run without limits on a few small files; a leaked descriptor, a file read into memory at once or needless rereading goes unnoticed.",
 ["src/search.c", "src/backup.c", "src/restore.c", "src/file-hash.c", "src/repository.c", "src/integrity.c", "src/garbage-collector.c", "src/safe-wrappers.c"],
 [("one directory stream per level", "src/search.c recursionStepRaw"), ("block-wise copying and hashing", "src/file-hash.c, src/backup.c copyFileIntoRepo, src/restore.c"), ("contents compared only if the modification time differs", "src/backup.c")],
 ["exit status and result of nb REPO under ulimit -n, ulimit -v and a full disk; files it opens"])

prop("C25", "Command lines mean what the documentation says or are refused",
 "Whatever way a repository is named - absolute or relative to the current directory, with trailing or doubled slashes, through '.', '..' or symlinks - and a path to restore is named - absolute or relative, with trailing slashes - a run does exactly what it does for the plain absolute paths. Arguments that are not of a documented form (other commands, numbers with anything but digits or too large to represent, surplus arguments, repositories that do not exist, are no directory or hold neither configuration nor metadata) are refused with an error and exit status 1, before anything is printed or changed. A path to restore that contains empty, '.' or '..' elements is refused or taken for the path it means.",
 ["inputs", "histories"],
 "for every command line, current directory, repository and history",
 "The tests name their repositories in two or three ways and try a few wrong arguments.",
 ["src/nb.c", "src/garbage-collector.c", "src/repository.c", "src/safe-wrappers.c", "src/str.c"],
 [("argument dispatch", "src/nb.c main"), ("relative paths", "src/nb.c buildFullPath"), ("paths relative to the repository", "src/garbage-collector.c shouldBeRemoved, src/repository.c fillPathBuffer")],
 ["stdout, stderr, exit status and file system after nb with these arguments"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
