from hist import *


class Check(Property):
    id = "C04"
    level = "fault_enumeration"
    quick = 4000
    thorough = 50000
    rule = ("a case is a configuration and up to 30 operations: good batches, and batches written while a fault is armed on the log (error, "
            "ENOSPC, partial write, failed fsync at the n-th log call, persistent or once, failed truncation of the partial record), under the "
            "error_wal injection, with an oversized key, with an event larger than a memory page, or at the memory limit, in any batch shape; "
            "scans, refreshes, log rotations, clean restarts and crashes in between; content must be exactly that of the acknowledged batches; "
            "non-trivial: at least one batch failed and one batch succeeded")
    assumptions = ["a failed truncation of the log directly followed by a crash is not generated (the record may then be durable)",
                   "one thread, no background workers"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 3, 10, 10, 100, 1000])
        cfg["mm_page_size"] = r.choice([65536 * 2, 65536 * 2, 1 << 20])
        cfg["wal_sync_on_write"] = r.random() < 0.5
        if r.random() < 0.3:
            cfg["wal_rotate_wm"] = r.choice([1, 100, 1000])
        if r.random() < 0.2:
            cfg["mm_limit"] = True
            cfg["mm_limit_behaviour"] = "error"
            cfg["mm_limit_wm"] = cfg["mm_page_size"] * r.choice([1, 2, 3, 5])
        ids = Ids(r, cfg["interval"], r.choice(["dense", "dense", "gaps", "parts", "mod32"]))
        ids.n = min(ids.n, 20 if cfg["interval"] < 10 else 60)
        ops = []
        for _ in range(r.randint(3, 30)):
            k = r.random()
            b = gen_batch(r, ids, r.choice([2, 5, 12]), big=0.05)
            if r.random() < 0.3 and len(ids.used) > 1:     # spread over several partitions with repetitions
                b += gen_batch(r, ids, 6) + [list(b[0])]
            if k < 0.25:
                ops.append(["w", b])
            elif k < 0.60:
                mode = r.choice(["fail", "fail", "short", "short", "failall"])
                cls = r.choice(["wr", "wr", "wrsync", "sync" if mode != "short" else "wr"])
                if r.random() < 0.2:
                    cls, mode = "any", r.choice(["failall", "short"])
                nth = r.choice([0, 0, 0, 1, 2])
                n = r.choice([1, 1, 2, 4])
                bs = [b] + [gen_batch(r, ids, 5) for _ in range(n - 1)]
                ops.append(["fw", bs, mode, cls, nth, r.choice([28, 5, 4] if mode == "fail" else [28, 5]), r.randint(0, 400)])
            elif k < 0.68:
                if r.random() < .25:      # batches larger than the pages of the memory table
                    n = r.choice([400, 520, 600, 1100, 2000])
                    lo = r.choice([0, 0, r.randint(0, 50), cfg["interval"] // 2])
                    b2 = [[lo + i, "-" if r.random() < .9 else "66", "x%02x" % (i & 255)] for i in range(n)]
                    r.choice([lambda x: None, lambda x: x.reverse(), r.shuffle])(b2)
                    if cfg["interval"] < 100:       # one partition: one id, many keys
                        b2 = [[lo, "%04x" % e[0], e[2]] for e in b2]
                    if r.random() < .4:
                        ops.append(["w", b2[::r.choice([2, 3, 7])]])
                    b = b2 + b
                ops.append(["ew", b])
                if r.random() < .5 and len(b) > 100:
                    ops.append(["w", b[::r.choice([1, 1, 3])]])
            elif k < 0.74:
                i = r.randint(0, len(b))
                b.insert(i, [ids.pick(), "r%d.%d" % (r.randint(0, 99), r.choice([256, 257, 300, 1000])), "x01"])
                ops.append(["bw", b])
            elif k < 0.79:
                i = r.randint(0, len(b))
                b.insert(i, [ids.pick(), gen_key(r), "r7.%d" % (cfg["mm_page_size"] + r.choice([-30, 0, 1, 5000]))])
                ops.append(["mw", b])
            elif k < 0.88:
                ops.append(["scan"])
            elif k < 0.93:
                ops.append(r.choice([["ck"], ["refresh", r.choice(ids.used)], ["x", 'debug "wal_create"'], ["drain"]]))
            elif k < 0.97:
                ops.append(r.choice([["reopen"], ["newproc"]]))
            else:
                ops.append(["crash"])
        return {"cfg": cfg, "ops": ops, "variant": "asan" if r.random() < 0.12 else "plain"}

    def run(self, case):
        w = Db(case["cfg"])
        w.start()
        limit = case["cfg"].get("mm_limit", False)

        hard = False    # a truncation may have failed and was not repeated yet
        for o in case["ops"]:
            k = o[0]
            if k == "fw":
                hard = hard or o[3] == "any"
            elif k in ("reopen", "newproc", "crash"):
                hard, h = False, hard
            if k == "w":
                w.write(o[1], may_fail=limit)
            elif k == "fw":
                w.line("fault %s %s %d wal/ %d %d" % (o[2], o[3], o[4], o[5], o[6]))
                for b in o[1]:
                    w.write(b, may_fail=True)
                w.line("fault off")
                w.scan("scan after failed writes")
            elif k == "ew":
                w.cmd("set error_wal to true")
                self.must_fail(w, o[1])
                w.cmd("set error_wal to false")
                w.scan("scan after a failed write")
            elif k == "bw":
                self.must_fail(w, o[1])
                w.scan("scan after a refused key")
            elif k == "mw":
                w.write(o[1], may_fail=True)
                w.scan("scan after an event close to the page size")
            elif k == "crash":
                w.new_process(crash=not h)
                w.scan("scan after crash")
            else:
                if k in ("reopen", "newproc", "drain", "ck", "refresh", "x"):
                    w.op(o)
                    if k in ("reopen", "newproc"):
                        w.scan("scan after reopen")
                else:
                    w.op(o)
        w.scan("final scan")
        # still writable and durable
        w.write([[5, "6b", "x0102"], [5, "6c", "-"]], may_fail=limit)
        w.new_process()
        w.scan("scan after reopen")
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = st.get("failed_writes", 0) > 0 and st.get("writes", 0) > 1
        return st

    @staticmethod
    def must_fail(w, events):
        def cb(line, res):
            if res.startswith("ok"):
                raise Fail("write accepted: %s" % line[:200])
            w.bump("failed_writes")
        w.line("w " + " ".join(ev_text(e) for e in events), cb)
