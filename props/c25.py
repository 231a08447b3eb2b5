from hist import *


class Check(Property):
    id = "C25"
    quick = 3600
    thorough = 60000
    rule = ("a case is a configuration (0-3 workers, 0-2 upload workers, watermarks, storages, optional mock cloud and pipeline) and up to 24 operations "
            "(single batches, bursts of batches, batches whose refreshes fail, checkpoints, changed watermarks and intervals, moves, cloud operations, restarts, kills); between "
            "two operations (some followed by service commands of the user) the background work is let to run until every worker waits (under a seeded scheduler) or, without workers, until the "
            "request queue is empty, and the listings are compared with what had to happen by itself; non-trivial: at least three such "
            "obligations arose")
    assumptions = ["no file operation fails, the refreshes which fail are retried by the next trigger; a partition written while its own refresh runs is not required to be refreshed again"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 3, 10, 10, 100, 1000])
        cfg["mm_page_size"] = 131072
        if r.random() < 0.15:
            cfg["wal"] = False
        if r.random() < 0.5:
            cfg["wal_rotate_wm"] = r.choice([1, 60, 200, 1000, 20000])
        lay = Layout(r, cfg, nmax=3, cloud=0.6, pipeline=0.35)
        cfg["_ddl"] = [d.replace("cloud_drop_local true", "cloud_drop_local " + r.choice(["true", "false"])) for d in cfg["_ddl"]]
        if r.random() < 0.5:
            cfg["_ddl"].append("alter storage %s set (refresh_wm %d)" % (lay.storage(), r.choice([1, 131072, 200000, 300000])))
        if lay.cloudy and r.random() < 0.4:
            cfg["_ddl"].append("alter pipeline set %s" % r.choice(lay.cloudy))
        cfg["workers"] = r.choice([0, 1, 1, 2, 3])
        cfg["workers_upload"] = r.choice([0, 0, 1, 1, 2])
        pre = cfg.setdefault("_pre", [])
        pre.append("time 1700000000000000 1")
        if cfg["workers"] + cfg["workers_upload"]:
            pre.append("sched %d %d %d" % (r.randint(1, 1 << 40), r.choice([0, 0, 1, 2, 2]), r.choice([1, 3, 3, 10])))
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts", "parts", "mod32", "edges"]))
        ids.n = min(ids.n, cfg["interval"] * 6)
        ops = []
        grow = r.random() < 0.5
        top = 0

        def batch(n):
            nonlocal top
            b = gen_batch(r, ids, n, big=0.25)
            if grow:
                for e in b:
                    if e[0] not in ids.used[:-2] and r.random() < 0.6:
                        e[0] = min(I63, top + r.choice([0, 1, 1, cfg["interval"], cfg["interval"] + 1]))
                        ids.used.append(e[0])
                    top = max(top, e[0]) if e[0] < 1 << 40 else top
            return b
        for _ in range(r.randint(3, 24)):
            k = r.random()
            if k < .55:
                ops.append(["w", batch(r.choice([1, 3, 10]))])
            elif k < .63:
                ops.append(["burst", [batch(r.choice([1, 3, 10])) for _ in range(r.randint(2, 5))]])
            elif k < .66:
                ops.append(["fail", r.choice([1, 2, 3]), batch(r.choice([1, 3, 10])), r.random() < .5])
            elif k < .70:
                ops.append(["ck"])
            elif k < .75:
                ops.append([r.choice(["newproc", "crash", "crash"])])
            elif k < .78:
                ops.append(["wcrash", batch(r.choice([1, 3, 10]))])
            elif k < .82:
                ops.append(["x", "alter storage %s set (refresh_wm %d)" % (lay.storage(), r.choice([0, 1, 131072, 200000, 1 << 25]))])
            elif k < .84:
                ops.append(["x", "set interval to %d" % r.choice([1, 5, 10, 20, 100])])
            elif k < .86:
                ops.append(["x", "create partition %d %d" % (top, min(I63, top + r.choice([0, 3, cfg["interval"]])))])
            else:
                o = gen_maint(r, ids, lay)
                while o[0] == "reopen" or o[0] == "x" and "debug" in o[1] and "wal" in cfg:
                    o = gen_maint(r, ids, lay)
                ops.append(o)
        svc = r.choice([0, 0, 1, 3]) if cfg["workers"] else 0     # requests executed by the user's thread, next to the workers
        return {"cfg": cfg, "ops": ops, "svc": svc, "variant": "asan" if r.random() < 0.06 else "plain"}

    def run(self, case):
        cfg = case["cfg"]
        w = Db(cfg)
        nw, nu = cfg["workers"], cfg["workers_upload"]
        box = {"p": None, "wm": cfg.get("wal_rotate_wm", 100 << 20)}
        wal = cfg.get("wal", 1)

        svc = case.get("svc", 0)

        def settle():
            for _ in range(svc):
                w.s.add("x service")
            if not nw:
                w.s.add("until 100 x service")
            if nw + nu:
                w.s.add("idle")
                if not nw:
                    for _ in range(3):
                        w.s.add("until 30 x service")
                        w.s.add("idle")

        def listing(f):
            def parts(line, res):
                box["old"], box["p"] = box["p"], parts_of(res)

            def storages(line, res):
                j = jparse(res)
                box["st"] = j

            def files(line, res):
                box["wal"] = sorted((int(x.split("/")[-1].split(".")[0]), int(x.split("=")[1])) for x in res.split()[1:])

            def pipe(line, res):
                box["tiers"] = jparse(res)
                f()
            w.line("x show partitions", parts)
            w.line("x show storages", storages)
            w.line("files db/wal/", files)
            w.line("x show pipeline", pipe)

        def head(p):
            return "partition [%d,%d] of %s (%d events in memory of %d bytes, on_storage %s, on_cloud %s)" % (
                p["min"], p["max"], p["storage"], p["events_heap"], p["size_heap"], p["on_storage"], p["on_cloud"])

        def flushed(p, why):
            w.bump("due_flush")
            if p["events_heap"]:
                raise Fail("%s is not refreshed after %s" % (head(p), why))
            c = box["st"][p["storage"]]["config"]
            if c["cloud"] and (p["on_storage"] or p["on_cloud"]):
                w.bump("due_upload")
                if not p["on_cloud"] or p["on_storage"] == c["cloud_drop_local"]:
                    raise Fail("%s, cloud_drop_local %s, after %s" % (head(p), c["cloud_drop_local"], why))

        def memory(ps, why):
            for p in ps:
                wm = box["st"][p["storage"]]["config"]["refresh_wm"]
                if wm and p["size_heap"] > wm:
                    raise Fail("%s uses more than refresh_wm %d after %s" % (head(p), wm, why))

        def log(why):
            if wal and box["wal"] and box["wal"][-1][1] > box["wm"]:
                raise Fail("the log file %s is beyond wal_rotate_wm %d after %s" % (box["wal"][-1], box["wm"], why))

        def after_write(batch, old, iv):
            """one batch from a settled state, then settled"""
            cur = box["p"]
            top = old[-1] if old else None
            ids = sorted({e[0] for e in batch})
            was = {p["min"] for p in old}
            new = [p for p in cur if p["min"] not in was]
            # partitions which were the last one when a partition of a later interval was created
            chain = ([top] if top else []) + [p for p in new if not top or p["min"] > top["max"]]
            grown = False
            for a, b in zip(chain, chain[1:]):
                first = min((i for i in ids if b["min"] <= i <= b["max"]), default=None)
                if first is None or first - first % iv <= a["min"]:
                    continue
                grown = True
                for p in cur:
                    if p["min"] == a["min"]:
                        flushed(p, "the creation of a later partition")
            if not box.get("failed"):
                # not those which were moved to another storage while the batch was being written
                busy = {p["min"] for p in cur for q in old if p["min"] == q["min"] and p["refreshes"] > q["refreshes"] and p["storage"] != q["storage"]}
                memory([p for p in cur if p["min"] not in busy and any(p["min"] <= i <= p["max"] for i in ids)], "a write")
            log("a write")
            # limits of the pipeline, when only new partitions were written
            if grown and nw + svc < 2 and (not top or ids[0] > top["max"]):
                for t in box["tiers"]:
                    if t["partitions"] >= 0:
                        n = sum(p["storage"] == t["name"] for p in cur)
                        w.bump("due_rebalance")
                        if n > max(t["partitions"], len(new)):
                            raise Fail("%d partitions on %s beyond its limit %d after the creation of a partition" % (n, t["name"], t["partitions"]))

        def after_ck(old):
            box["failed"] = False
            pending = {p["min"] for p in old if p["events_heap"]}
            for p in box["p"]:
                if p["min"] in pending:
                    flushed(p, "a checkpoint")
                elif p["events_heap"]:
                    raise Fail("%s is not refreshed after a checkpoint" % head(p))
            if wal and pending:
                w.bump("due_gc")
                if len(box["wal"]) != 1:
                    raise Fail("%d log files after a checkpoint: %s" % (len(box["wal"]), box["wal"]))

        def after_open():
            box["failed"] = False
            for p in box["p"]:
                if box["st"][p["storage"]]["config"]["cloud"] and p["on_storage"] and not p["on_cloud"]:
                    raise Fail("%s is not uploaded after a restart" % head(p))
            memory(box["p"], "a restart")
            if any(p["size_heap"] for p in box["p"]):
                w.bump("memory_after_restart")

        def nothing():
            pass

        iv = cfg["interval"]
        opened = 0
        w.start()
        settle()
        listing(nothing)
        for o in case["ops"]:
            k = o[0]
            if k == "w":
                w.op(o)
                settle()
                listing(lambda o=o, iv=iv: after_write(o[1], box["old"], iv))
            elif k == "burst":
                for b in o[1]:
                    w.write(b)
                settle()
                listing(nothing)
            elif k == "fail":       # refreshes fail; what they left is refreshed later
                w.cmd("set error_refresh_%d to true" % o[1])
                w.write(o[2])
                if o[3]:
                    w.cmd("checkpoint")
                settle()
                w.cmd("set error_refresh_%d to false" % o[1])
                listing(lambda: box.update(failed=True))
            elif k == "ck":
                w.cmd("checkpoint")
                settle()
                listing(lambda: after_ck(box["old"]))
            elif k in ("crash", "newproc", "wcrash"):
                if not wal:
                    w.cmd("checkpoint")
                    settle()
                elif k == "wcrash":
                    w.write(o[1])
                opened += 1
                w.cfg = dict(cfg, _pre=["time %d 1" % (1700000000000000 + opened * 10 ** 9) if l.startswith("time") else l for l in cfg["_pre"]])
                w.new_process(crash=k != "newproc")
                settle()
                listing(after_open)
                w.scan()
            else:
                if k == "x" and o[1].startswith("set interval"):
                    iv = int(o[1].split()[-1])
                if k == "x" and o[1].startswith("set wal_rotate_wm"):
                    n = int(o[1].split()[-1])
                    w.line("nop", lambda line, res, n=n: box.update(wm=n))
                if k == "x" and o[1].startswith("create partition"):
                    o = ["x?", o[1]]
                if k == "rebalance":
                    settle()
                    w.cmd("rebalance")
                else:
                    w.op(o)
                settle()
                listing(nothing)
        w.scan()
        w.cmd("checkpoint")
        settle()
        listing(lambda: after_ck(box["old"]))
        w.scan("scan after a checkpoint")
        w.s.ok("close")
        s = w.run(self.driver(case.get("variant", "plain")))
        s["nontrivial"] = s.get("due_flush", 0) + s.get("due_upload", 0) + s.get("due_gc", 0) >= 3
        return s
