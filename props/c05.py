from hist import *


class Check(Property):
    id = "C05"
    quick = 3600
    thorough = 40000
    rule = ("a case is a configuration, a layout of storages (optional mock cloud and pipeline) and up to 45 operations: writes, deletes, drops of "
            "partitions, refreshes, moves, storage and pipeline DDL, explicit partitions, interval and log setting changes, with clean close and "
            "reopen (same or new process, any directory order) one to three times in a row after any of them; every scan after a reopen must "
            "equal the model; non-trivial: at least two reopens with two or more events, one of them after a refresh or a drop")
    assumptions = ["write-ahead log on; one thread, no background workers"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 3, 10, 10, 100, 1000, 1 << 32, 1 << 40])
        if r.random() < 0.3:
            cfg["wal_rotate_wm"] = r.choice([1, 100, 1000])
        lay = Layout(r, cfg, pipeline=0.25, absolute=True)
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts", "parts", "mod32", "edges", "sign"]))
        if ids.n // cfg["interval"] > 12:
            ids.n = cfg["interval"] * 12
        drops = r.choice([0, 0, 0.15, 0.3])
        ivs = r.random() < 0.5
        ops = []
        for _ in range(r.randint(4, 32)):
            k = r.random()
            if k < 0.36:
                ops.append(["w", gen_batch(r, ids, r.choice([3, 8, 30]))])
            elif k < 0.40:
                ops.append(["wb", ids.fresh() // 2, 1, r.choice([30, 300, 700]) if cfg["interval"] >= 100 else 20, 10, "-", "r", r.randint(0, 1 << 30), r.choice([0, 20])])
            elif k < 0.72:
                ops.append(gen_maint(r, ids, lay, drops=drops))
            elif k < 0.75 and ivs:
                ops.append(["x", "set interval to %d" % r.choice([1, 2, 3, 7, 10, 50, 100, 1000, 1 << 20, 1 << 33])])
            elif k < 0.78:
                a = ids.fresh() & I63
                ops.append(["x?", "create partition %d %d" % (a, min(I63, a + r.choice([1, 5, 10, 100, 1000])))])
            elif k < 0.81:
                n = "x%d" % r.randint(0, 10 ** 6)
                o = lay.options()
                ops.append(["x", "create storage %s%s" % (n, " (%s)" % ", ".join(o) if o else "")])
                lay.names.append(n)
            elif k < 0.84:
                ops.append(["x?", r.choice(["alter pipeline reset", "alter pipeline set main",
                                            "alter pipeline set %s (partitions %d), %s" % (lay.storage(), r.randint(0, 3), lay.storage()),
                                            "alter pipeline set %s (events %d), %s" % (lay.storage(), r.randint(0, 30), lay.storage())])])
            elif k < 0.86:
                ops.append(["readdir", r.randint(1, 1 << 30)])
            else:
                ops.append([r.choice(["reopen", "newproc"])])
                for _ in range(r.choice([0, 0, 1, 2])):
                    ops.append([r.choice(["reopen", "newproc"])])
                ops.append(["scan"])
        return {"cfg": cfg, "ops": ops, "variant": "asan" if r.random() < 0.1 else "plain"}

    def run(self, case):
        w = Db(case["cfg"])
        w.start()
        for o in case["ops"]:
            if o[0] == "readdir":
                w.s.ok("readdir %d" % o[1])
            else:
                w.op(o)
        w.reopen()
        w.scan("scan after reopen")
        w.new_process()
        w.new_process()
        w.scan("scan after repeated reopen")
        # and after everything is refreshed
        w.refresh_all()
        w.new_process()
        w.scan("scan after refresh and reopen")
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = len(w.m.d) >= 2 and any(o[0] in ("ck", "refresh", "refreshr", "drop", "dropr", "move", "offload") for o in case["ops"])
        return st
