from hist import *


class Check(Property):
    id = "C18"
    quick = 5000
    thorough = 60000
    rule = ("a case is a configuration, a layout (storages, optional mock cloud, explicit partitions) and up to 40 operations dense in drops: one "
            "partition by any id inside, ranges that cover partitions wholly or partly, missing partitions, a second drop, drops after failed or "
            "interrupted refreshes, followed by writes into the dropped range, log rotations and collections, changes of the interval, copies of the directory opened by a "
            "second handle, clean restarts and process kills with the directory read in any order; content always equals the model, the dropped "
            "partitions are not listed and no file of them is left; non-trivial: two or more drops removed events and the database was opened "
            "again afterwards")
    assumptions = ["one thread, no background workers"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 2, 3, 10, 10, 10, 100, 1000, 1 << 32])
        if r.random() < 0.5:
            cfg["wal_rotate_wm"] = r.choice([1, 60, 200, 1000])
        lay = Layout(r, cfg, nmax=3, cloud=0.35, pipeline=0.12)
        iv = cfg["interval"]
        ids = Ids(r, iv, r.choice(["dense", "gaps", "parts", "parts", "parts", "mod32", "edges"]))
        ids.n = min(ids.n, iv * 6)
        ops = []

        def pid():
            u = [x for x in ids.used if x <= I63]
            x = r.choice(u) if u and r.random() < .85 else min(I63, ids.fresh())
            return max(0, min(I63, x + r.choice([0, 0, 0, 0, 1, -1, iv])))

        for _ in range(r.randint(6, 40)):
            k = r.random()
            if k < 0.30:
                ops.append(["w", gen_batch(r, ids, r.choice([1, 3, 8]), big=0.01)])
            elif k < 0.34:
                ops.append(["wb", max(0, min(ids.fresh(), I63) // 2), r.choice([1, 1, 3]), r.choice([6, 30, 300]) if iv >= 100 else 10, r.choice([1, 4]), "-", "r", r.randint(0, 1 << 30), r.choice([0, 9])])
            elif k < 0.55:
                ops.append(["drop", pid()])
                if r.random() < 0.3 and ids.used:      # written again at once
                    ops.append(["w", [[r.choice(ids.used), gen_key(r), gen_value(r, 0)]]])
            elif k < 0.62:
                a = r.choice([0, 0, pid(), pid() // iv * iv])
                ops.append(["dropr", a, r.choice([I63, min(I63, a + iv - 1), min(I63, a + 3 * iv - 1), min(I63, a + r.randint(0, 5) * max(1, iv // 2)), pid()])])
            elif k < 0.65:
                ops.append(["missing", pid()])
            elif k < 0.69:
                a = pid()
                ops.append(["create", a, min(I63, a + r.choice([0, 1, 3, iv, 2 * iv + 1]))])
            elif k < 0.74:
                ops.append(["x", r.choice(['debug "wal_create"', 'debug "wal_gc"'])])
            elif k < 0.78:
                ops.append(["rfail", r.choice([1, 2, 3]), r.choice([["refresh", pid()], ["ck"], ["move", pid(), lay.storage()]])])
            elif k < 0.80:
                ops.append(["x", "set interval to %d" % r.choice([1, 2, 3, 7, 10, 50, 100, 1000, 1 << 20, 1 << 33])])
            elif k < 0.83:
                ops.append(["peek"])
            elif k < 0.90:
                ops.append([r.choice(["newproc", "crash", "crash", "reopen"]), r.choice([0, 1, r.randint(2, 1 << 30)])])
            else:
                o = gen_maint(r, ids, lay, alters=False)
                ops.append(o)
        return {"cfg": cfg, "ops": ops, "variant": "asan" if r.random() < 0.08 else "plain"}

    def run(self, case):
        w = Db(case["cfg"])
        w.start()
        st0 = {"last": 0, "after": 0}

        def reopened():
            st0["after"] = max(st0["after"], st0["last"])

        def clean():
            """nothing is left of the partitions dropped by the previous drop command"""
            box = {}

            def parts(line, res):
                box["p"] = parts_of(res)
                for id, k in w.m.d:
                    if not any(p["min"] <= id <= p["max"] for p in box["p"]):
                        raise Fail("event %d has no partition after a drop" % id)

            def files(line, res):
                mins = {p["min"] for p in box["p"]}
                for f in res.split()[1:]:
                    n = f.split("=")[0].split("/")[-1].split(".")[0]
                    if "wal/" in f or not n.isdigit():
                        continue
                    if int(n) not in mins:
                        raise Fail("file of a dropped partition is left: %s" % f)
            w.line("x show partitions", parts)
            w.line("files db", files)

        def drop(o):
            w.op(o)
            i = len(w.s.lines) - 1
            old = w.s.cbs[i]

            def cb(line, res):
                n = w.count.get("drops_with_data", 0)
                old(line, res)
                sel = w.count.get("drops_with_data", 0) - n
                st0["last"] += sel
                st0["gone"] = [p for p in w.parts]
            w.s.cbs[i] = cb
            clean()

        def peek():
            w.s.ok("copy db db2")
            w.s.ok("use 1")
            opening(w.s, w.cfg, first=False, db="db2")
            w.s.lines[-2] = "init 1"
            w.scan("scan of a copy of the directory")
            w.s.ok("close")
            w.s.ok("rmtree db2")
            w.s.ok("use 0")
            w.line("nop", lambda l, res: reopened())
            w.bump("copies_checked")

        for o in case["ops"]:
            k = o[0]
            if k in ("drop", "dropr"):
                drop(o)
                w.scan("scan after drop")
            elif k == "missing":
                w.show_parts()

                def missing(line, res, id=o[1]):
                    has = any(p["min"] <= id <= p["max"] for p in w.parts)
                    if has != res.startswith("ok"):
                        raise Fail("'%s' answered %s" % (line, res[:200]))
                    if has:
                        n = len(w.m.d)
                        for p in w.parts:
                            if p["min"] <= id <= p["max"]:
                                w.m.drop(p["min"], p["max"])
                        if len(w.m.d) < n:
                            st0["last"] += 1
                            w.bump("drops_with_data")
                w.line("x drop partition %d" % o[1], missing)
                clean()
            elif k == "create":
                w.cmd("create partition %d %d" % (o[1], o[2]))
            elif k == "rfail":
                w.cmd("set error_refresh_%d to true" % o[1])
                if o[2][0] == "ck":
                    w.cmd("checkpoint")
                    w.line("until 20 x service")
                elif o[2][0] == "refresh":
                    w.cmd("refresh partition if exists %d" % o[2][1], must=False)
                else:
                    w.cmd("move partition if exists %d into %s" % (o[2][1], o[2][2]), must=False)
                w.cmd("set error_refresh_%d to false" % o[1])
            elif k == "peek":
                peek()
            elif k in ("newproc", "crash", "reopen") and len(o) > 1:
                if k == "reopen":
                    w.line("readdir %d" % o[1])
                    w.reopen()
                else:
                    if k == "newproc":
                        w.s.ok("close")
                    w.s.new_session(w.started)
                    w.line("readdir %d" % o[1])
                    opening(w.s, w.cfg, first=False)
                    w.bump("reopens")
                w.line("nop", lambda l, res: reopened())
                w.scan("scan after %s" % k)
            else:
                w.op(o)
        w.scan("final scan")
        w.new_process(crash=True)
        w.scan("scan after a restart")
        w.refresh_all()
        w.new_process()
        w.scan("scan after refresh and reopen")
        clean()
        w.line("nop", lambda l, res: reopened())
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = st0["after"] >= 2
        return st
