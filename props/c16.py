from hist import *


class Check(Property):
    id = "C16"
    quick = 4000
    thorough = 60000
    rule = ("a case is a serial-mode database and up to 40 operations: batches mixing automatic and explicit ids, deletes, explicit empty "
            "partitions ahead, refreshes, moves, drops, restarts, crashes, failing writes, and blocks of 2-3 threads writing automatic ids under a "
            "seeded scheduler; every automatic id must be new and greater than all automatic ids before it in the session and than every id "
            "present when the database was last opened; full scans against the model; non-trivial: automatic ids were assigned before and after a restart")
    assumptions = ["ids below 2^64-1000; explicit ids written in the same session are not followed (an automatic id may meet them later)"]
    variants = ["plain"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 3, 10, 10, 100, 1000])
        cfg["serial"] = True
        th = r.random() < .35
        if th:
            cfg["_pre"] = ["sched %d %d 3" % (r.randint(1, 1 << 40), r.choice([0, 1, 2]))]
        lay = Layout(r, cfg, nmax=2, cloud=.25, pipeline=.15)
        iv = cfg["interval"]
        ids = Ids(r, iv, r.choice(["dense", "dense", "parts", "gaps"]))
        ids.n = min(ids.n, iv * 12)
        drops = r.choice([0, .1, .4])
        ops = []
        for _ in range(r.randint(4, 40)):
            k = r.random()
            if k < .40:
                ev = [[AUTO, gen_key(r), gen_value(r)] for _ in range(r.choice([1, 1, 2, 5, 20]))]
                if r.random() < .3:
                    ev.insert(r.randint(0, len(ev)), [ids.pick(), gen_key(r), gen_value(r)])
                ops.append(["wf" if r.random() < .1 else "w", ev])
            elif k < .50:
                ops.append(["w", gen_batch(r, ids, 4)])
            elif k < .53:
                ops.append(["dellast", r.choice([1, 1, 3])])
            elif k < .57:
                a = r.randint(0, 40) * iv
                ops.append(["x?", "create partition %d %d" % (a, a + iv * r.randint(1, 4) - 1)])
            elif k < .62 and th:
                ops.append(["th", [[r.choice([1, 1, 2, 4]) for _ in range(r.randint(1, 4))] for _ in range(r.choice([2, 3]))]])
            elif k < .74:
                ops.append([r.choice(["reopen", "newproc", "newproc", "crash"])])
            else:
                ops.append(gen_maint(r, ids, lay, drops=drops, alters=False))
        return {"cfg": cfg, "ops": ops}

    def run(self, case):
        w = Db(case["cfg"])
        st = {"floor": -1, "start": -1, "auto": 0, "auto_after_restart": 0, "restarts": 0, "lastid": None}

        def opened():
            # what the database contains when it was opened
            def cb(line, res):
                st["floor"] = max((k[0] for k in w.m.d), default=-1)
                st["restarts"] += 1
            w.scan("scan after open")
            w.line("nop", cb)

        def assigned(id):
            if id <= st["floor"]:
                raise Fail("automatic id %d is not greater than %d, in use before" % (id, st["floor"]))
            st["floor"] = id
            st["auto"] += 1
            if st["restarts"] > 1:
                st["auto_after_restart"] += 1
            st["lastid"] = id

        def write(events, may_fail):
            w.write(events, may_fail=may_fail)
            i = len(w.s.cbs) - 1
            inner = w.s.cbs[i]

            def cb(line, res):
                if res.startswith("ok"):
                    for x, e in zip(res.split()[1:], events):
                        if e[0] == AUTO:
                            assigned(int(x))
                inner(line, res)
            w.s.cbs[i] = cb
        w.after_open = opened
        w.start()
        opened()
        for o in case["ops"]:
            k = o[0]
            if k == "w":
                write(o[1], False)
            elif k == "wf":
                w.line("x set error_wal to true")
                write(o[1], True)
                w.line("x set error_wal to false")
                w.scan("scan after a failed write")
            elif k == "dellast":
                w.line("x show ssn", None)
                # delete the newest automatic ids (the id is only known at run time: delete a range below it by key)
                w.write([[j, "-", "-", 1] for j in range(o[1])])
            elif k == "th":
                self.threads(w, o, assigned)
                w.scan("scan after threads")
            elif k == "crash":
                w.new_process(crash=True)
            else:
                w.op(o)
        w.scan("last scan")
        s = w.run(self.driver("plain"))
        s.update({k: st[k] for k in ("auto", "auto_after_restart")})
        s["nontrivial"] = st["auto"] > st["auto_after_restart"] > 0
        return s

    def threads(self, w, o, assigned):
        evs = {}
        s = w.s
        ops = []
        for t, sizes in enumerate(o[1]):
            for i, n in enumerate(sizes):
                ops.append((t, [[AUTO, "%02x" % t, "x%02x%02x" % (t, i)] for _ in range(n)]))

        def cb(lines, blk):
            import itertools
            per = {}
            for l in blk:
                th, t0, t1, res = l.split(" ", 3)
                per.setdefault(int(th[1:]), []).append(res)
            got = []
            for t in sorted(per):
                prev = -1
                exp = [e for tt, e in ops if tt == t]
                if len(exp) != len(per[t]):
                    raise Fail("thread %d answered %d of %d writes" % (t, len(per[t]), len(exp)))
                for res, e in zip(per[t], exp):
                    if not res.startswith("ok"):
                        raise Fail("write of a thread refused: " + res)
                    ids = [int(x) for x in res.split()[1:]]
                    for i in ids:
                        if i <= prev:
                            raise Fail("automatic ids of a thread do not increase: %d after %d" % (i, prev))
                        prev = i
                    got += ids
                    w.m.apply([[i] + x[1:] for i, x in zip(ids, e)])
            if len(set(got)) != len(got):
                raise Fail("two threads received the same automatic id: %s" % sorted(got))
            for i in sorted(got):
                assigned(i)
            w.bump("thread_blocks")
        s.add("threads", cb)
        for t, e in ops:
            s.add("t%d w %s" % (t, " ".join(ev_text(x) for x in e)))
        s.add("endthreads")
