HEAD = """# Design

(Generated by `tools/design.py` from `tools/design_text.py`, the checks and the seeds.)

## Approach

One technique decides every property: generated-input search against an explicit oracle. No property had to go to
`not_applicable`.

* `harness/driver.cc` is a client of the public C API that executes a script: open, writes, cursors, commands, threads,
  copies of the directory, second handles and owners, restarts. `lib/build.py` compiles it with the sources found in
  /repo's working tree (variants: plain, AddressSanitizer + UBSan, ThreadSanitizer) into `/verif/build`; only libc calls
  are interposed (linker `--wrap`), so nothing depends on how the engine is written, and /repo has no hooks.
* `harness/shim.cc` is the interposed system-call layer. It counts every file-system mutation, and can kill the process at
  the n-th one (optionally after a torn write), fail the n-th call of a class (errors, no space, short writes; on the
  log, partition files, cloud copy, configuration), keep a model of what is not yet synced and write only an arbitrary
  prefix of it at a simulated power loss, permute `readdir`, and replace the clock.
* `harness/sched.cc` is a seeded cooperative scheduler: all threads of the process (workers included) run one at a time
  and switch at lock, wait, and file operations; random, sticky and priority policies; it detects deadlocks and
  livelocks. The same scripts also run as real threads with ThreadSanitizer.
* `lib/fakes3.py` is a strict loopback S3 server (signature verification, ranges, faults by request count).
* `lib/core.py` drives it: N seeded cases over 8 processes, shrinking of a failing case (drop operations, simplify
  numbers) by delta debugging, a replay file (`check.py C05 --replay FILE`), the evidence, and the corpus
  (`corpus/<ID>/*.json`, minimal cases of the defects found so far, always executed first).
* `lib/world.py`, `lib/hist.py`, `lib/crash.py` hold the reference models (ordered map; candidates for batches in flight;
  partition ranges; definitions) and the generators. A case is JSON: the same case always does the same.

A check exits 0, or 1 with `VIOLATION property=<id> replay=<path>`. Any answer outside of the protocol (crash,
sanitizer report, hang with timeout, leaked descriptor) is a violation too. A case is deterministic, so a failure is run a
second time before it is reported.

Containment: every case runs in a directory of its own under `/verif/build` or `/dev/shm`-like scratch, storage paths are
relative, the engine only touches files below its directory; nothing needs privileges.

The unit tests of the repository execute fixed short histories and look at one thing each; the checks search histories,
fault points, schedules, and configurations in combination and compare all of the content.

## Properties
"""
ORACLE = {
"C01": "a sorted map with `(id, key bytes)` as key; each full scan must equal it exactly, in order.",
"C02": "the tail of the sorted map from the smallest key not below the position, whatever the layout; an over-long key must be refused.",
"C03": "per cursor: the set of events that must, may and may not appear, updated at each write; strict monotonicity; values are versions current since the open.",
"C04": "the map with only the acknowledged batches; compared at once, after restart and after a kill.",
"C05": "the map; the scan after each reopen; a reopen is repeated up to three times to catch what only a second recovery shows.",
"C06": "a set of candidate maps (acknowledged; acknowledged + batch in flight). Recovery must give one of them, and the search goes on from it.",
"C07": "the map, two candidates for a drop or write in flight, and the same content after maintenance and another reopen (leftover files must not come back).",
"C08": "metamorphic: maintenance is the identity on the content of the map.",
"C09": "round trip against the map over a configuration matrix; search of a random marker in the raw files; size relation for compressible data.",
"C10": "a range model that predicts the exact list of partitions after each operation; invariants (disjoint, every event covered) independent of it.",
"C11": "a copy of the directory taken between two operations, opened by a second handle, equals the map: a log file removed too early shows at once, without having to crash. Exactness: one file left when everything is refreshed. A third of the cases also run blocks of threads: writes next to rotations, collections, moves and refreshes, switched by the seeded scheduler, each thread with keys of its own, so the model does not depend on the order.",
"C12": "the written data: each returned event must be one that was written; an undamaged copy put back must read completely; for the log, the contents after each prefix of the acknowledged operations.",
"C13": "a model of the definitions which predicts acceptance and the exact text of the SHOW commands and the configuration file; before/after candidates at a crash.",
"C14": "differential (respelled twin), metamorphic (SHOW list, units) and robustness (AddressSanitizer + UBSan, state unchanged by refused commands).",
"C15": "rule checks of partitions before and after each rebalance, against the creation order kept by the check itself.",
"C16": "monotonic sets of ids per session, maximum id at open; full scans.",
"C17": "logical time stamps of each write and read step: a read may only return a version that is not overwritten before the read started and not written after it ended; batches whole per partition; final content explained by some serial order.",
"C18": "the map without the ids of the partitions the listing showed before the drop; partition list; files in the directory; copies and restarts.",
"C19": "content model invariant under failed maintenance; the retried operation must succeed; log files and descriptors counted at the end.",
"C20": "the map plus a bound computed from page size and limit: what surely fits must be accepted, everything else accepted or refused without effect.",
"C21": "the map; and the server's objects: key set equal to partitions reported on the cloud, bytes equal to the local file.",
"C22": "written keys per partition since the last refresh, file names, locations and sizes in the directory, and sums among the listings.",
"C23": "ownership state machine; hash of the whole directory before/after a refused open; count of descriptors; content afterwards.",
"C24": "per partition: the content of its last completed refresh, plus that of a refresh possibly completed by the crash or the failing call.",
"C25": "obligations derived from the listing before an operation and the operation itself (who was the newest partition, whose memory passed refresh_wm, what lacks a cloud copy, how large the log is, which limit is exceeded), compared with the listing once every worker waits.",
"C26": "which calls need an open environment is decided by the first word of a command or the kind of the call; those must answer an error and leave every file of the scratch directory as it was (content hash); definitions, settings and content after an open are compared with those kept at the end of the previous life.",
}
WHY = {
"C01": "page splits, 64-bit comparison edges, prefix keys and dead events need content of particular shapes.",
"C02": "off-by-one at page and region edges and across partition borders depend on the layout and position.",
"C03": "the page a cursor stands on changes under it only for particular insert positions and sizes.",
"C04": "every position of a fault inside a batch over several partitions.",
"C05": "recovery depends on the order of files, ids of partitions and the state of the log left by any history.",
"C06": "each crash point, torn length and lost tail; crashes during recovery.",
"C07": "each crash point of multi-file operations and any directory order on recovery.",
"C08": "chains of moves, re-uploads and settings across storages.",
"C09": "all settings together, alterations between, empty and incompressible regions.",
"C10": "edges of the 64-bit range and mixtures of intervals and explicit ranges.",
"C11": "the minimum over partitions of their oldest log file, under rotations, failed writes and failed refreshes.",
"C12": "any byte of any file kind.",
"C13": "every option subset, character, failing point.",
"C14": "arbitrary input.",
"C15": "limits of several tiers together, in any order, across restarts.",
"C16": "restarts between partitions at the end of the id space, in memory only, empty or dropped.",
"C17": "interleavings.",
"C18": "replay order of drops, writes and collected logs; leftovers of failed operations.",
"C19": "each call of each operation as fault point, plus what happens after it.",
"C20": "exact sizes at the page edge and exact page counts at the limit.",
"C21": "faults of the server between any two requests, restarts in between.",
"C22": "the listing in every state of every partition, not after one refresh.",
"C23": "opens failing at every call.",
"C24": "crash points, without the log that would mask a lost refresh.",
"C25": "the seeded scheduler knows when all workers wait, so a request which is lost or stuck is seen without a timeout, for every mix of workers and upload workers.",
"C26": "tests never call the API on a handle which is not open; a write, a cursor or most commands aborted, hung or left half-made definitions there.",
}
MID = """## Defects found and repaired

The search found 56 defects of the unchanged tree; each was reproduced against the real code, repaired by a `fix:` commit in
/repo, and is listed in `known_findings.json` (`fixed`). No finding is left unrepaired (`findings` is empty).

## False alarms corrected

* C17: reads overlapping a failing write; a refresh refused while another thread uploads (statement narrowed).
* C19: a drop on the cloud of the only copy is the drop of the data, not maintenance; a failed truncation of the log after a
  failed sync is outside of the model (C04).
* C21: objects of disturbed uploads and removals may stay behind; `.complete` files count as local files; a full drop that fails
  is settled by the next restart; only one drop per fault block.
* C22: the number of service calls needed to drain the requests was too small.
* C25: partitions created after a restart looked oldest because the fake clock restarted; a pipeline limit is only demanded when no partition to move was written in the same batch.
* C24: a checkpoint that meets a fault is not a definite refresh of all partitions.
* C13: string values are compared as stored; a failing save of the definitions accepts either set.
* C12: a cut of an older log file exactly between two records cannot be seen by per-record checksums (statement narrowed).

## Observed, outside of the listed properties

`set compression` is not validated online; two storages with one uuid are accepted; partition ids above 2^63 cannot be addressed by
commands; `drop partition N on storage` without a cloud copy may come back from the log; S3 requests have no timeout; the mock
download is not synced; an overlong chain of failed sync and failed truncation leaves a record until the next write or close.
"""
SEEDNOTES = """Each seed was written from the property and the code, verified to build, to pass all of the stable tests and to fail its own
demonstration. `tools/seed.py --recheck` runs the checks again. Many obvious ideas (region maximum, partition map order, refresh
rename order, upload order, index copy before the rename) are caught by the existing tests and were not kept.

Seeds that were missed when they were planted, and what was changed:
- c04-page-left (a failed batch that spilled into a second memtable page): C04 now generates failing batches of 400-2000 events.
- c07-cloud-sync (a file downloaded from the mock cloud is not synced): the power-loss cases of C06, C07 and C24 now run with a
  cloud storage too; the directory that plays the cloud is exempt from the loss. This also found a real defect (fixed).
- c08-download-order (partitions keep a cloud object which the storage no longer has): C08 now also changes, drops and re-creates the
  clouds of storages while partitions exist, and checks that a partition is on a cloud only if its storage has one.
- c09-iv-reuse was planted together with the new check that no 16 encrypted bytes occur twice in all versions of the files.
- c21-s3 variants of the same: C21 now has power failures between operations.
- c20-int-used (used memory computed in 32 bits): C20 now also runs with memory pages of 256 MB - 2 GB.
- c20-cached-page, c19-unset-first: caught as planted.
- c11-rotate-lsn (the number of the next log file is read before the lock is taken): C11 was single-threaded; it now has blocks of
  threads under the scheduler, with collections and copies after them.
- c25-any-count (an upload executed by a service command of the user is still counted in the queue): C25 had service commands only
  without workers; a third of its cases now also run them on the user's thread next to the workers.
"""
REG = """As a second, larger sample of realistic breakage, `tools/regress.py` reverts each of the `fix:` commits in a scratch copy and runs the
check of its property (defects that existed unnoticed under 589 tests). The shrunk case of each caught one is kept in `corpus/`.
"conflict" means the revert does not apply because of later fixes. Known blind spots: 8ef1cea needs more than 4 GiB of data and is not
reached by the quick tier; 747ffd5 shows only with crc off and compression without encryption; 9424310 is superseded by 3f4a7e1;
52d71c3 needs a rare schedule.
"""
