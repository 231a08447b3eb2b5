from hist import *


class Check(Property):
    id = "C11"
    quick = 3600
    thorough = 40000
    rule = ("a case is a configuration with small log files and up to 36 operations: writes (some failing), rotations, refreshes of chosen "
            "partitions (some failing at each stage), moves, drops, log collections (some with a failing file removal), checkpoints, restarts, blocks of two or three threads (writes next to rotations, "
            "collections and refreshes, switched by a seeded scheduler); after any operation or block the directory is copied and the copy, opened by a second handle, must hold exactly the model; when everything is "
            "refreshed one log file must remain; non-trivial: at least two log files were deleted while a copy was checked afterwards")
    assumptions = ["the copy is taken between two operations, or after all threads of a block ended; the threads write different keys"]
    variants = ["plain"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 3, 10, 10, 100, 1000])
        cloud = 0.4 if r.random() < 0.3 else 0
        if r.random() < 0.5:
            cfg["wal_rotate_wm"] = r.choice([1, 60, 200, 1000])
        lay = Layout(r, cfg, nmax=2, cloud=cloud, pipeline=0.15)
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts", "parts", "mod32"]))
        ids.n = min(ids.n, cfg["interval"] * 8)
        drops = r.choice([0, 0, 0.15])
        ops = []
        for _ in range(r.randint(5, 36)):
            k = r.random()
            if k < 0.38:
                ops.append(["w", gen_batch(r, ids, r.choice([2, 4, 12]), big=0.01)])
            elif k < 0.43:
                ops.append(["wfail", gen_batch(r, ids, 4), r.choice(["fail", "short"]), r.randint(0, 200)])
            elif k < 0.55:
                ops.append(["x", 'debug "wal_create"'])
            elif k < 0.65:
                ops.append(["x", 'debug "wal_gc"'])
            elif k < 0.68:
                ops.append(["gcfail", r.choice([0, 0, 1, 2])])
            elif k < 0.76:
                ops.append(["rfail", r.choice([1, 2, 3]), r.choice([["refresh", r.choice(ids.used or [0])], ["ck"], ["move", r.choice(ids.used or [0]), lay.storage()]])])
            else:
                o = gen_maint(r, ids, lay, drops=drops, alters=False)
                ops.append(o)
            if r.random() < 0.45:
                ops.append(["peek"])
        if r.random() < 0.3:
            # writes, rotations and collections run next to each other, under the scheduler
            cfg["_pre"] = ["time 1700000000000000 1", "sched %d %d %d" % (r.randint(1, 1 << 40), r.choice([0, 0, 1, 2, 2]), r.choice([1, 3, 3, 10]))]
            for _ in range(r.randint(1, 3)):
                at = r.randint(0, len(ops))
                b = [self.gen_block(r, ids, lay)]
                if r.random() < 0.5:
                    b.insert(0, ["refresh", r.choice(ids.used or [0])])
                if r.random() < 0.7:
                    b.append(["x", 'debug "wal_gc"'])
                ops[at:at] = b + [["peek"]]
        return {"cfg": cfg, "ops": ops, "cloud": lay.has_cloud}

    def gen_block(self, r, ids, lay):
        used, ths = {}, []
        for t in range(r.choice([2, 2, 3])):
            ops = []
            for _ in range(r.randint(1, 4)):
                if t == 0 or (t == 2 and r.random() < 0.6):
                    k = r.random()
                    ops.append(["x", 'debug "wal_create"' if k < .4 else 'debug "wal_gc"' if k < .65 else "service" if k < .75 else "checkpoint" if k < .8 else
                                "move partition if exists %d into %s" % (r.choice(ids.used or [0]), lay.storage()) if k < .87 else
                                "refresh partition if exists %d" % r.choice(ids.used or [0])])
                else:
                    # the keys of a thread are its own: the result does not depend on the order
                    ev = [e for e in gen_batch(r, ids, r.choice([1, 2, 6])) if e[0] != AUTO and used.setdefault((e[0], key_bytes(e[1])), t) == t]
                    if ev:
                        ops.append(["w", ev])
            ths.append(ops)
        return ["block", ths]

    def run(self, case):
        w = Db(case["cfg"])
        w.start()
        st0 = {"files": 0, "max": 0, "deleted": 0}

        def wal(line, res):
            n = jparse(res)["files"]
            if n < st0["files"]:
                st0["deleted"] += st0["files"] - n
            st0["files"] = n

        def block(ths):
            w.line("threads", None)
            pos = len(w.s.cbs) - 1
            prog = {}
            for t, ops in enumerate(ths):
                prog[t] = []
                for o in ops:
                    l = "w " + " ".join(ev_text(e) for e in o[1]) if o[0] == "w" else "x " + o[1]
                    prog[t].append((l, o))
                    w.line("t%d %s" % (t, l))
            w.line("endthreads")

            def cb(ops, blk):
                n = {t: 0 for t in prog}
                for b in blk:
                    th, _, _, res = b.split(" ", 3)
                    t = int(th[1:])
                    l, o = prog[t][n[t]]
                    n[t] += 1
                    if not res.startswith("ok") and not l.startswith("x move") and "must be dropped from the cloud first" not in res:
                        raise Fail("'%s' answered: %s" % (l[:150], res[:200]))
                    if o[0] == "w":
                        w.m = w.m.copy()
                        w.m.apply(o[1])
                if any(n[t] != len(prog[t]) for t in prog):
                    raise Fail("not every operation of the threads was answered")
                w.bump("blocks")
            w.s.cbs[pos] = cb

        def peek():
            w.line("x show wal", wal)
            w.s.ok("copy db db2")
            w.s.ok("use 1")
            opening(w.s, w.cfg, first=False, db="db2")
            w.s.lines[-2] = "init 1"
            w.scan("scan of a copy of the directory")
            w.s.ok("close")
            w.s.ok("rmtree db2")
            w.s.ok("use 0")
            w.bump("copies_checked")
        for o in case["ops"]:
            k = o[0]
            if k == "peek":
                peek()
            elif k == "block":
                block(o[1])
            elif k == "wfail":
                w.line("fault %s wr 0 wal/ 28 %d" % (o[2], o[3]))
                w.write(o[1], may_fail=True)
                w.line("fault off")
            elif k == "gcfail":
                w.line("fault fail unlink %d wal/" % o[1])
                w.cmd('debug "wal_gc"', must=False)
                w.line("fault off")
            elif k == "rfail":
                w.cmd("set error_refresh_%d to true" % o[1])
                if o[2][0] == "ck":
                    w.cmd("checkpoint")
                    w.line("until 20 x service")
                elif o[2][0] == "refresh":
                    w.cmd("refresh partition if exists %d" % o[2][1], must=False)
                else:
                    w.cmd("move partition if exists %d into %s" % (o[2][1], o[2][2]), must=False)
                w.cmd("set error_refresh_%d to false" % o[1])
            else:
                w.op(o)
        w.scan()
        peek()
        w.cmd("checkpoint")
        w.drain(300)
        w.cmd('debug "wal_gc"')
        if not case["cloud"]:
            def one(line, res):
                n = jparse(res)["files"]
                if n != 1:
                    raise Fail("%d log files after everything is refreshed" % n)

            def onef(line, res):
                n = len(res.split()) - 1
                if n != 1:
                    raise Fail("%d log files in the directory after everything is refreshed: %s" % (n, res))
            w.line("x show wal", one)
            w.line("files db/wal/", onef)
        peek()
        w.new_process()
        w.scan("scan after reopen")
        st = w.run(self.driver("plain"))
        st["deleted_files"] = st0["deleted"]
        st["nontrivial"] = st0["deleted"] >= 2 and len(w.m.d) >= 2
        return st
