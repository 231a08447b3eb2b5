from crash import *


class Check(CrashCheck):
    id = "C07"
    quick = 7000
    thorough = 60000
    weights = dict(write=0.34, bulk=0.04, maint=0.58, misc=0.04)
    drops = 0.12
    rule = ("a case is a configuration, a layout of storages (optional mock cloud, pipeline) and 1-5 segments of writes and maintenance operations "
            "(refresh, move, upload, download, offload, drop, checkpoint, rebalance, log collection), each ended by a crash at a random "
            "file-system mutation (also power loss) and possibly crashes during recovery, with the directory read in any order; content after "
            "recovery must be the content before, or before/after for the drop or write in flight; it must survive a full maintenance pass and "
            "reopen; non-trivial: an operation was cut by the crash and three or more events are live")
    assumptions = ["power loss keeps a prefix of the bytes of a file that were not synced; renames, creations and removals are durable in order",
                   "power-loss cases have sync and wal_sync_on_write on, what the mock cloud holds survives; one thread"]

    def layout(self, r, cfg, ploss):
        return Layout(r, cfg, nmax=3, cloud=0.5, pipeline=0.2, sync=not ploss, absolute=True)
