from crash import *


class Check(CrashCheck):
    id = "C06"
    quick = 7000
    thorough = 60000
    rule = ("a case is a configuration, a layout and 1-5 segments of up to 19 operations (mostly batches; also log rotation and collection, refresh, "
            "checkpoint); each segment ends in a crash at a random file-system mutation (process kill, torn write of any length, power loss that "
            "keeps an arbitrary prefix of every unsynced tail), possibly followed by crashes during recovery; after each recovery the content must "
            "be every acknowledged batch plus the batch in flight entirely or not at all; the database stays writable; non-trivial: a crash hit a "
            "write in flight")
    assumptions = ["power loss keeps a prefix of the bytes of a file that were not synced; renames, creations and removals are durable in order",
                   "power-loss cases have sync and wal_sync_on_write on, what the mock cloud holds survives; one thread"]
