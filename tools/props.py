#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

E = "monotone/engine/"
R = "monotone/runtime/"
M = "monotone/main/"
C = "monotone/cloud/"

p("C01", "The database is one ordered map from (id, key) to value",
  "After any sequence of successful batch writes (inserts, replacements, deletes; any 64-bit id below the maximum, any key up to 255 bytes, any value, any mix inside a batch) and partition refreshes, a full cursor scan returns exactly the last written value of every primary key that was not deleted afterwards, byte for byte, once each. The order is ascending by unsigned id and then by key bytes, a shorter key before its extensions.",
  ["inputs", "histories"], "every sequence of batches over every id/key/value, with any subset of partitions refreshed at any point",
  "The functional tests write consecutive small ids with an 8-byte or empty key and check counts; ids far apart, colliding modulo 2^32, keys of mixed length, updates across refreshes and pages are never combined.",
  [E+"io/event.h", E+"io/comparator.h", E+"io/memtable.c", E+"io/region.h", E+"io/region_iterator.h", E+"io/merge_iterator.h", E+"io/merger.c", E+"engine/write.c", E+"engine/engine_cursor.h"],
  [("memtable T-tree insert/split/replace", E+"io/memtable.c"), ("comparator", E+"io/comparator.h"), ("merge join of memtables and partition file", E+"io/merge_iterator.h")],
  [("memtable a/b", "active and rotated in-memory storage of one partition", E+"io/part.h"), ("region index", "min/max of each region of a partition file", E+"io/index.h")],
  ["monotone_write", "monotone_cursor", "monotone_read", "monotone_next"])

p("C02", "A cursor opened at a key starts at the first event not below it",
  "For every database content and every seek position (id, key), present or not, a cursor opened there is positioned on the smallest live event that is greater than or equal to the position, and stepping it visits every later event in order until the end of the database. Where the events currently live (in memory, in one or several regions of a partition file, on several partitions, on the cloud) makes no difference, and a position whose key is longer than the limit of 255 bytes is refused with an error.",
  ["inputs", "histories"], "every content, physical layout and seek position including gaps between pages, regions and partitions and the extremes of the id space",
  "Tests seek to a handful of existing ids in tiny single-page, single-region partitions.",
  [E+"io/memtable_iterator.h", E+"io/part_iterator.h", E+"io/part_cursor.h", E+"io/region_iterator.h", E+"io/index.h", E+"engine/engine_cursor.h", E+"engine/engine.c"],
  [("memtable seek", E+"io/memtable_iterator.h"), ("region lookup", E+"io/index.h"), ("partition lookup", E+"io/mapping.h"), ("partition chaining", E+"engine/engine_cursor.h")],
  None, ["monotone_cursor", "monotone_next"])

p("C03", "An open cursor survives writes made by its own thread",
  "While a thread iterates with a cursor and inserts, replaces or deletes events through the same database handle, the cursor keeps moving strictly forward: every event that was ahead of it when it was opened and was not deleted since is visited exactly once, no position is visited twice, and no event deleted before it was opened is returned (an event inserted or deleted ahead of it later may or may not be shown). The value returned is a version of that event that was current at some moment since the cursor was opened, never anything else.",
  ["histories"], "every interleaving of cursor steps and batch writes on one thread, including those that split or extend in-memory pages around the cursor",
  "Only a few fixed scripts write below an open cursor, all within one in-memory page.",
  [E+"io/memtable_iterator.h", E+"io/memtable.c", E+"io/merge_iterator.h", E+"io/part_cursor.h", E+"engine/engine_cursor.h", E+"engine/lockage.h", M+"api/monotone.c"],
  [("iterator list and synchronisation on insert/split", E+"io/memtable_iterator.h"), ("re-entrant partition lock", E+"engine/lockage.h")],
  None, ["monotone_read", "monotone_next"])

p("C04", "A failed batch write changes nothing",
  "When a batch write returns an error (write-ahead log failure at any point, memory limit, oversized key, any I/O error), none of its events is visible then or after any restart, every event it would have replaced or deleted still has its previous value, and later batches succeed and are durable. A batch that succeeded is wholly visible.",
  ["histories", "fault_sequences"], "every history with write failures injected at any log I/O call, including short writes, and any batch shape (repeated keys, several partitions)",
  "One injected-error flag is exercised on a few fixed scripts; real short writes, disk-full and fsync failures and the content of the log afterwards are not.",
  [E+"engine/write.c", E+"io/memtable.c", E+"wal/wal.c", E+"wal/wal_file.h", E+"wal/log_write.h"],
  [("log of changes with rollback", E+"engine/write.c"), ("rollback in the memtable", E+"io/memtable.c")],
  None, ["monotone_write return value", "cursor scan", "scan after reopen"])

p("C05", "Closing and reopening the database preserves its content",
  "With the write-ahead log enabled, for every history of successful writes, drops, refreshes, moves, DDL and settings changes, closing the database and opening it again any number of times yields exactly the same events. Reopening itself, repeated without intervening writes, never changes the content.",
  ["histories", "configurations"], "every history and every number of reopen cycles, under every setting of log rotation, checksums, partition interval, compression and encryption",
  "Recovery tests reopen a few fixed databases once.",
  [M+"main/main.c", E+"engine/write.c", E+"engine/engine_recover.c", E+"wal/wal.c", E+"wal/wal_cursor.c", E+"wal/log_write.h", E+"wal/log_drop.h", E+"io/index_op.c"],
  [("log replay with partition lsn filter", E+"engine/write.c"), ("partition recovery", E+"engine/engine_recover.c")],
  [("lsn", "log position saved in every partition file", E+"io/index.h")], ["cursor scan after reopen"])

p("C06", "An acknowledged write survives a crash and an unacknowledged one is atomic",
  "With the write-ahead log enabled, after the process is killed at any instant the database opens again and contains every batch whose write returned success; the batch in flight is present entirely or not at all. With synchronous mode on, the same holds when the operating system loses everything not synced (an unsynced tail of a file survives as any prefix of it), or tears the last log record; and the state recovered stays writable: whatever is acknowledged afterwards survives the next crash too.",
  ["crash_points", "histories"], "every history, every crash point between two file-system mutations, torn last write of any length, repeated crashes",
  "Tests never crash the process while writing, nor tear the log.",
  [E+"wal/wal.c", E+"wal/wal_file.h", E+"wal/wal_cursor.c", E+"wal/wal_id.h", E+"engine/write.c", M+"main/main.c", R+"runtime/vfs.c"],
  [("write-ahead before acknowledge", E+"engine/write.c"), ("end-of-log detection", E+"wal/wal_cursor.c")],
  None, ["scan after reopen of the crashed directory"])

p("C07", "A crash during partition maintenance loses and invents nothing",
  "If the process dies at any point of a refresh, move, upload, download, drop of a partition's local or cloud copy, checkpoint, pipeline rebalance or log garbage collection, the database opens again and its content equals the content before the operation (or, for a drop of partitions, before or after it). After a further maintenance pass the content is still the same and no temporary file is left that stops a later open.",
  ["crash_points", "histories"], "every maintenance operation, every crash point between two file-system mutations, any partition/storage/cloud layout",
  "The recovery tests stop at three hand-placed points of one refresh and one upload/download error.",
  [E+"engine/refresh.c", E+"engine/op.c", E+"engine/engine_recover.c", E+"io/part.c", E+"wal/wal.c", C+"cloud/mock.c", R+"runtime/file.h"],
  [("incomplete/complete rename protocol", E+"engine/refresh.c"), ("file-state recovery", E+"engine/engine_recover.c")],
  [("file state", "suffix .incomplete/.complete/.cloud/.cloud.incomplete", C+"cloud/id.h")], ["scan after reopen"])

p("C08", "Maintenance never changes what readers see",
  "Refreshing, moving, uploading, downloading, dropping a local or cloud copy that the other copy backs, checkpointing, servicing, rebalancing and altering storage settings leave the logical content of the database unchanged, whatever their order, repetition and target storages.",
  ["histories", "configurations"], "every sequence of writes interleaved with every maintenance command over several storages with different settings",
  "Each command is tested on its own with few identical partitions.",
  [E+"engine/refresh.c", E+"engine/op.c", E+"io/merger.c", E+"io/writer.c", E+"io/reader.h", E+"io/part.c", M+"main/execute.c"],
  [("merge of memtable and file into a new file", E+"io/merger.c"), ("switch of origin partition", E+"engine/refresh.c")],
  None, ["cursor scan before/after"])

p("C09", "Compression and encryption are lossless and effective",
  "For every combination of compression (none, lz4, zstd at any level), encryption (none, aes) and region size, and for storages with different settings used together and altered over time, every event reads back byte for byte from partition files, including after restart. Event data of a storage with encryption on never appears in clear in its partition files, encrypting the same data again never gives the same bytes, and compressible data of a storage with compression takes less space than without.",
  ["configurations", "inputs"], "every combination of storage settings, moves between them, and value content (compressible, random, empty, large)",
  "Tests use one setting at a time on values with constant bytes and look at counts only.",
  [R+"lib/compression_zstd.c", R+"lib/compression_lz4.c", R+"lib/compression_mgr.c", R+"lib/encryption_aes.c", R+"lib/encryption_mgr.c", E+"io/writer.c", E+"io/region_writer.h", E+"io/reader.h", E+"io/index_op.c"],
  [("region write", E+"io/writer.c"), ("region read", E+"io/reader.h")],
  None, ["cursor scan", "partition file bytes"])

p("C10", "Partitions never overlap and cover exactly where events live",
  "At every moment the partitions are pairwise disjoint ranges, every event lies in the range of exactly one partition, automatic partitions are aligned to the configured interval except where explicitly created neighbours limit them, and explicit creation of a range creates partitions for exactly the parts of it that no partition covers yet. This holds for any mixture of intervals, explicit partitions, drops, past and future ids and restarts.",
  ["histories", "inputs"], "every sequence of interval changes, explicit creations, drops and writes over the whole 64-bit range",
  "Tests create a few adjacent ranges with the default interval.",
  [E+"io/mapping.h", E+"engine/engine.c", E+"engine/op.c", E+"engine/engine_show.c", M+"command/parse_partition.c"],
  [("gap-limited partition creation", E+"engine/engine.c"), ("range mapping", E+"io/mapping.h")],
  None, ["show partitions", "cursor scan"])

p("C11", "Log garbage collection deletes exactly what is no longer needed",
  "A write-ahead log file is deleted only if every event in it is already in a partition file (or was dropped); so at any instant the partition files and the remaining log files together hold all live data. Once all partitions are refreshed, a checkpoint or service pass deletes every log file except the one being written (files may be kept longer after a failed write, until its partition is refreshed).",
  ["histories", "crash_points"], "every history of writes, rotations, partial refreshes and garbage collections, with the directory inspected (copied) at any point",
  "Tests check the number of log files in two fixed scripts.",
  [E+"engine/op.c", E+"engine/refresh.c", E+"wal/wal.c", E+"wal/wal_id.h", E+"engine/worker.c"],
  [("minimum lsn over in-memory storages", E+"engine/op.c"), ("file deletion up to lsn", E+"wal/wal.c")],
  [("lsn_min", "smallest log position still only in memory", E+"io/memtable.h")], ["wal directory", "scan of a reopened copy"])

p("C12", "Damaged files are detected, never served",
  "If bytes of a partition file are altered or the file is truncated, then with data checksums or encryption enabled on the storage (and always for the partition index and header) opening or reading reports an error or the original data, but never returns events that were not written and never crashes. With log checksums enabled the same holds for altered log records: opening reports an error or restores a prefix of the acknowledged batches.",
  ["inputs", "fault_sequences"], "every damaged byte position and truncation length of every partition file or log file",
  "No test damages a file.",
  [E+"io/index_op.c", E+"io/reader.h", E+"io/region.h", E+"wal/wal_cursor.c", E+"wal/wal_file.h", E+"engine/engine_recover.c", R+"lib/crc.c"],
  [("index and region checksum", E+"io/index_op.c"), ("log record checksum", E+"wal/wal_file.h")],
  None, ["open and scan of a damaged copy"])

p("C13", "Definitions and settings persist, atomically",
  "Storages, clouds, the pipeline and every persistent setting created, altered, renamed or dropped by a successful command read back identically after any restart, whatever characters their string values contain, and a failed command leaves them as they were. If the process dies at any instant of such a command, the database opens again and shows the definitions from before or after it, with the same database identity; if saving the definitions itself reports an error, either set is acceptable.",
  ["histories", "crash_points", "inputs"], "every sequence of DDL and SET commands, every crash point inside one, every string content",
  "Tests run DDL on fixed names and reopen a few of them; no crash inside a configuration save.",
  [R+"config/config.c", R+"lib/json.c", E+"storage/storage_mgr.c", E+"storage/pipeline.c", E+"storage/tier.h", C+"cloud/cloud_mgr.c", C+"cloud/source.h", C+"cloud/cloud_config.h", M+"main/main.c", M+"main/execute.c"],
  [("configuration save", R+"config/config.c"), ("json export/import", R+"lib/json.c")],
  None, ["show storages", "show clouds", "show pipeline", "show all", "config.json"])

p("C14", "The command language accepts its grammar and survives everything else",
  "Every command string either executes or returns an error with a message; no input crashes, hangs or corrupts the process, and a rejected command changes no data and no definition. Keywords are case-insensitive, white space and comments are insignificant, and numbers with size or duration units have their literal value.",
  ["inputs"], "every byte string given to execute, valid, mutated or random, in any state of the database",
  "Tests feed a few dozen well-formed commands and a few syntax errors.",
  [M+"command/lex.c", M+"command/parse.c", M+"command/parse_config.c", M+"command/parse_storage.c", M+"command/parse_cloud.c", M+"command/parse_partition.c", M+"command/parse_pipeline.c", M+"command/parse_debug.c", M+"main/execute.c", R+"runtime/logger.c"],
  [("lexer", M+"command/lex.c"), ("recursive descent parser", M+"command/parse.c")],
  None, ["monotone_execute return value", "monotone_error", "show output"])

p("C15", "The pipeline moves and drops oldest data first, only beyond limits",
  "After an explicit rebalance (or the automatic one that follows creation of a partition) every storage of the pipeline respects its partition-count, size, event-count and duration limits; the partitions moved to the next storage (or dropped, after the last one) are those of each storage created earliest, where the creation time is kept by refresh, move and restart, and no more of them than the limits require. A limit that is not exceeded moves nothing, and data in storages without limits is never lost to a rebalance.",
  ["histories", "configurations"], "every pipeline of storages and limits, every distribution of partitions over storages",
  "Tests use two or three storages and single limits on equal partitions.",
  [E+"engine/op.c", E+"storage/pipeline.c", E+"storage/tier.h", E+"engine/engine.c", M+"command/parse_pipeline.c"],
  [("rebalance schedule", E+"engine/op.c"), ("tier limits", E+"storage/tier.h")],
  None, ["show partitions", "show storages", "cursor scan"])

p("C16", "Automatic ids are unique and increasing across restarts",
  "Every event written without an id receives an id greater than every id assigned automatically before in the same session and than every id present in the database when it was last opened, whatever restarts, refreshes and drops happened (explicit ids written during the session are not taken into account). So automatic ids never repeat, and after a restart an automatic write never replaces an existing event.",
  ["histories", "configurations"], "every history of automatic and explicit-id writes, deletes, refreshes, explicit partitions and restarts",
  "Tests restart once with one non-empty newest partition.",
  [E+"engine/engine.c", E+"engine/write.c", E+"engine/engine_recover.c", M+"main/main.c"],
  [("serial restore on start", E+"engine/engine.c"), ("serial follow on replay", E+"engine/write.c")],
  [("ssn", "last serial number", R+"config/global.h")], ["event id returned by cursor"])

p("C17", "Concurrent readers, writers and maintenance behave as if serial",
  "With any number of threads writing, reading and executing maintenance commands on one database handle, with background workers, no acknowledged write is lost, each batch is seen in full or not at all within one partition, a scan never goes backwards or returns a value never written or an event twice, nothing crashes or has a data race, and every call eventually returns. A thread that holds an open cursor does not write to other partitions in this property, and a refresh or move may be refused while another thread uploads or downloads the same partition.",
  ["schedules"], "every schedule of writer, reader, DDL and worker threads",
  "The test runner is single-threaded apart from the idle workers.",
  [E+"engine/lockage.h", E+"engine/service.h", E+"engine/worker.c", E+"engine/worker_mgr.c", E+"engine/write.c", E+"engine/refresh.c", E+"engine/engine.c", E+"engine/op.c", R+"runtime/rwlock.h", R+"config/control.h"],
  [("partition locks", E+"engine/lockage.h"), ("exclusive section for DDL", R+"config/control.h"), ("service queue", E+"engine/service.h")],
  None, ["per-thread histories", "final scan"])

p("C18", "Dropping partitions removes exactly their events, for good",
  "Dropping a partition or a range of partitions removes exactly the events whose ids lie in the dropped partitions and nothing else; they stay gone after any restart, and events written afterwards into the same range are kept, also after any restart. A drop that reports an error leaves each partition either whole or dropped.",
  ["histories"], "every history of drops (single, range, whole), explicit or automatic partitions, later writes and restarts",
  "Tests drop single automatic partitions and check counts in the same session.",
  [E+"engine/op.c", E+"wal/log_drop.h", E+"engine/write.c", E+"engine/engine_recover.c", M+"command/parse_partition.c", M+"main/execute.c"],
  [("drop record in the log", E+"wal/log_drop.h"), ("drop on replay", E+"engine/write.c")],
  None, ["cursor scan", "show partitions"])

p("C19", "A maintenance operation that fails leaves the database intact and retryable",
  "If any file-system or cloud call fails during refresh, move, upload, download, checkpoint, rebalance, drop of a copy or log garbage collection, the command reports an error or succeeds, the logical content stays the same in memory and after restart, writes continue to work, and repeating the operation after the fault has gone succeeds (a failed drop leaves each partition whole or dropped).",
  ["fault_sequences", "histories"], "every maintenance operation with an I/O error, short write or disk-full at any call, then writes, retries and restarts in any order",
  "Three injected flags are tested, each followed by one restart.",
  [E+"engine/refresh.c", E+"engine/op.c", E+"io/merger.c", E+"io/writer.c", E+"io/part.c", C+"cloud/mock.c", R+"runtime/file.h", R+"runtime/vfs.c", E+"engine/worker.c"],
  [("exception unwinding in refresh/move", E+"engine/refresh.c"), ("error return of cloud operations", E+"engine/op.c")],
  None, ["monotone_execute return value", "cursor scan", "scan after reopen"])

p("C20", "Limits on memory and event size give errors, not damage",
  "Events of any size, in or beyond the configured memory page size and memory limit, are either written in full and read back, or refused with an error that leaves content and later operations unaffected; refreshing frees the memory so writing can continue. Opening a database is not subject to the memory limit.",
  ["inputs", "configurations"], "every event size and batch shape against every page size and memory limit",
  "Tests write tiny events with the default 2 MiB page and no limit.",
  [R+"lib/memory_mgr.h", R+"lib/heap.h", E+"io/memtable.c", E+"io/event.h", E+"engine/write.c", E+"engine/service.h"],
  [("page allocation with limit", R+"lib/memory_mgr.h"), ("heap", R+"lib/heap.h")],
  None, ["monotone_write return value", "cursor scan", "show memory"])

p("C21", "The cloud copy of a partition is a faithful copy",
  "A partition uploaded to a cloud (local mock or S3) and dropped locally reads back identically through cursors, can be downloaded again identically, is replaced by the newer version after an update is re-uploaded, and its object is removed when the partition is dropped, also across restarts. A cloud that answers with errors produces an error, never wrong data or loss of the only copy (an object whose upload or removal failed may stay behind).",
  ["histories", "fault_sequences"], "every history of upload, download, drop of either copy, update and refresh of cloud partitions, moves between clouds, and failing requests",
  "S3 tests need an external server and do not run here; mock tests check file states of fixed scripts.",
  [C+"cloud/mock.c", C+"cloud/cloud.h", C+"cloud/source.h", C+"s3/s3.c", C+"s3/s3_op.c", C+"s3/s3_io.c", C+"s3/s3_request.c", E+"engine/op.c", E+"io/part.c", E+"io/reader.h"],
  [("cloud interface", C+"cloud/cloud.h"), ("S3 requests", C+"s3/s3_request.c"), ("partition states", C+"cloud/id.h")],
  None, ["cursor scan", "objects in the mock directory or HTTP server"])

p("C22", "Reported statistics equal the truth",
  "The partition and storage listings report, in any quiescent state, exactly the existing partitions with their true ranges, location flags, storage, pending in-memory event counts and on-disk event and region counts; per-storage totals equal the sum over their partitions; memory usage returns to a constant once everything is refreshed.",
  ["histories"], "every history of writes, refreshes, moves, drops, cloud operations and restarts",
  "Tests compare complete fixed outputs for small scripts only.",
  [E+"engine/engine_show.c", E+"io/stats.h", E+"io/part.h", E+"storage/storage_mgr.c", E+"storage/storage.h", R+"lib/memory_mgr.h"],
  [("show partitions/storages", E+"engine/engine_show.c"), ("stats", E+"io/stats.h")],
  None, ["show partitions", "show storages", "show memory", "directory listing"])

p("C23", "A database directory has one owner at a time",
  "While one handle has a database open, a second open of the same directory, from any process, fails with an error and changes nothing, and after the owner closes or dies the directory can be opened. An open that fails for any reason leaves the data intact and leaks no descriptor, and can be retried with a new handle (or the same one, if the directory was in use).",
  ["histories", "fault_sequences"], "every interleaving of opens, closes, crashes and failing opens of the same directory",
  "No test opens a directory twice or fails an open part-way.",
  [M+"main/main.c", R+"runtime/file.h", R+"runtime/vfs.c", R+"config/config.c", M+"api/monotone.c"],
  [("directory lock", R+"runtime/file.h")], None, ["monotone_open return value"])

p("C24", "Without the log, what was refreshed is durable",
  "With the write-ahead log disabled, after a clean close or a crash at any instant the database opens and, per partition, contains exactly the content as of that partition's last completed refresh (or of a refresh which failed or was in flight).",
  ["histories", "crash_points"], "every history of writes, refreshes, moves, cloud operations, drops, failing calls, crashes and restarts",
  "Tests with the log disabled only reopen fully refreshed databases.",
  [E+"engine/write.c", E+"engine/refresh.c", E+"engine/engine_recover.c", M+"main/main.c"],
  [("refresh protocol", E+"engine/refresh.c"), ("conditional replay", M+"main/main.c")], None, ["scan after reopen"])

p("C25", "Background maintenance happens by itself and drains",
  "Without any command, once the background work is done (every worker waits or, with no workers, SERVICE has emptied the queue): the partition that was newest when a write created a partition of a later interval has been refreshed; no partition just written (and not moved to another storage by the pipeline meanwhile), or replayed at start, holds more memory than refresh_wm of its storage; after a checkpoint no partition has events in memory and a single log file is left; the active log file is not beyond wal_rotate_wm; refreshed partitions of a storage with a cloud are uploaded (and not kept locally, with cloud_drop_local), those not yet uploaded at a restart too; partition-count limits of the pipeline hold after the creation of a partition. This holds for every number of workers and upload workers and every schedule of them; a refresh that failed is made up for by the next trigger.",
  ["histories", "schedules", "configurations"], "every history of writes, checkpoints, setting changes, cloud operations, restarts and kills, for every number of workers and schedule",
  "Tests call SERVICE a fixed number of times for single requests, or sleep next to one worker.",
  [E+"engine/service.h", E+"engine/op.c", E+"engine/write.c", E+"engine/engine.c", E+"engine/worker_mgr.c"],
  [("request queue", E+"engine/service.h"), ("request execution and resume", E+"engine/op.c"), ("refresh triggers", E+"engine/write.c")],
  None, ["show partitions", "show storages", "files of the log"])

p("C26", "Calls outside of an open environment are refused without effect",
  "On a handle that was never opened, whose open failed (missing parent directory, a plain file, a directory in use, a damaged configuration, any system error) or that failed to open a second time, every call that needs an open environment (writes, empty writes, cursors, every command other than SET and SHOW) answers an error, does not crash or hang, and changes no file. SET before the first open gives the settings of the new environment; before a later open it does not change what was stored. After a successful open the definitions, settings and content are the ones of the previous life, as if the refused calls were never made. A second open of an open handle is refused without effect; an empty batch changes nothing; reading past the end of a cursor keeps answering the end.",
  ["API call sequences", "inputs"], "every order of API calls on one or several handles before, between and after successful and failed opens",
  "Tests call init, open, use and free in that order only.",
  [M+"api/monotone.c", M+"main/main.c", M+"main/execute.c"],
  [("API entry points", M+"api/monotone.c"), ("open sequence", M+"main/main.c"), ("command dispatch", M+"main/execute.c")],
  None, ["answers of the API", "files", "scan", "SHOW"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
