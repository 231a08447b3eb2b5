from hist import *

CLS = ["any", "any", "mut", "mut", "wr", "wr", "sync", "unlink", "rename", "create", "trunc", "read", "wrsync"]


class Check(Property):
    id = "C19"
    level = "fault_enumeration"
    quick = 5200
    thorough = 80000
    rule = ("a case is a configuration, a layout (storages, optional mock cloud, pipeline) and up to 12 rounds: writes and other operations, then one "
            "maintenance operation (refresh, move, upload, download, drop of a copy or of the partition, checkpoint, rebalance, log rotation and "
            "collection, close, scan) with a fault at the n-th call of a class (error, out of space, short write; once or persistent; on any file, "
            "the log, the cloud copy or partition files), then scan, sometimes a write, a kill, a restart or a copy of the directory, then "
            "the same operation again without the fault, which must succeed; content always equals the model; at the end everything is refreshed, "
            "one log file is left and no file descriptor has leaked; non-trivial: two or more operations were refused because of a fault")
    assumptions = ["one thread, no background workers", "a failed drop of a whole partition may leave it as before or dropped until it is repeated"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 3, 10, 10, 100, 1000])
        if r.random() < 0.4:
            cfg["wal_rotate_wm"] = r.choice([1, 60, 200, 1000])
        if r.random() < 0.3:
            cfg["wal_sync_on_write"] = True
        lay = Layout(r, cfg, nmax=3, cloud=0.5, pipeline=0.2)
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts", "parts", "mod32"]))
        ids.n = min(ids.n, cfg["interval"] * 6)

        def pid():
            u = [x for x in ids.used if x <= I63]
            return r.choice(u) if u else 0
        ops = [["w", gen_batch(r, ids, 8, big=0.01)]]
        if r.random() < .3:
            ops += self.chain(r, cfg, lay, ids)
            return {"cfg": cfg, "ops": ops, "cloud": lay.has_cloud, "variant": "asan" if r.random() < 0.1 else "plain"}
        for _ in range(r.randint(2, 12)):
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                if r.random() < .75:
                    ops.append(["w", gen_batch(r, ids, r.choice([1, 3, 8, 20]), big=0.02)])
                else:
                    ops.append(gen_maint(r, ids, lay, drops=0.1, alters=False))
            x = pid()
            k = r.random()
            pre, act, re = [], None, None
            if k < .2:
                act = ["x", "refresh partition if exists %d" % x]
            elif k < .4:
                act = ["x", "move partition if exists %d into %s" % (x, lay.storage())]
            elif k < .45:
                act = ["x", "refresh partitions between 0 and %d" % I63]
            elif k < .5:
                act = ["x", "move partitions between 0 and %d into %s" % (I63, lay.storage())]
            elif k < .58:
                act = ["ck"]
            elif k < .64:
                act = ["x", r.choice(['debug "wal_gc"', 'debug "wal_create"'])]
                if "gc" in act[1]:
                    pre = [["x", 'debug "wal_create"'], ["ck"]]
            elif k < .68:
                pre = [["drain"]]
                act = ["x", "rebalance"]
            elif k < .74:
                act = ["drop", x] if r.random() < .7 else ["dropr", 0, r.choice([I63, x])]
            elif k < .77:
                act = ["scan"]
                if lay.cloudy and r.random() < .5:
                    pre = [["offload", x, r.choice(lay.cloudy)]]
            elif k < .79:
                act = ["close"]
            elif lay.cloudy:
                c = r.choice(lay.cloudy)
                j = r.random()
                mv = ["move", x, c]
                if j < .25:
                    pre, act = [mv, ["x?", "drop partition if exists %d on cloud" % x]], ["x", "upload partition if exists %d if cloud" % x]
                    # the partition must keep a local copy: downloaded before
                    pre = [mv, ["x", "download partition if exists %d if cloud" % x], ["x", "drop partition if exists %d on cloud" % x]]
                elif j < .5:
                    pre, act = [["offload", x, c]], ["x", "download partition if exists %d if cloud" % x]
                elif j < .8:
                    act = ["dropon", x, c, r.choice(["storage", "cloud"])]
                else:
                    pre = [["offload", x, c]] + ([["w", [[x, gen_key(r), gen_value(r, 0)]]]] if r.random() < .6 else [])
                    act = ["x", r.choice(["refresh partition if exists %d" % x, "move partition if exists %d into %s" % (x, lay.storage())])]
            else:
                act = ["x", "refresh partition if exists %d" % x]
            mode = r.choice(["fail", "fail", "failall", "short"])
            cls = r.choice(CLS)
            fault = [mode, cls, r.choice([0, 0, 1, 1, 2, 3, r.randint(0, 8), r.randint(0, 20)]), r.choice(["*", "*", "*", "wal/", "-0000-0000", "mock/", "000"]),
                     r.choice([28, 28, 5, 5, 24]), r.randint(0, 300)]
            mid = []
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                mid.append(r.choice([["w", gen_batch(r, ids, 4, big=0)], ["newproc"], ["crash"], ["reopen"], ["peek"], ["w", [[x, gen_key(r), "x77"]]],
                                     ["ck"], ["refresh", x], ["drain"], ["move", x, lay.storage()]]))
            inw = [gen_batch(r, ids, 4, big=0)] if r.random() < .15 else []
            ops.append(["ft", pre, fault, act, mid, inw])
        return {"cfg": cfg, "ops": ops, "cloud": lay.has_cloud, "variant": "asan" if r.random() < 0.1 else "plain"}

    def chain(self, r, cfg, lay, ids):
        """several failed operations on the same partition, not repeated one by one"""
        iv = cfg["interval"]
        base = r.choice(sorted(ids.used) or [0]) // iv * iv
        if base > I63:
            base = 0
        x = base
        live = []
        ops = []

        def put():
            b = []
            for _ in range(r.choice([1, 2, 5, 12])):
                if live and r.random() < .4:
                    e = r.choice(live)
                    b.append([e[0], e[1], gen_value(r), int(r.random() < .7)])
                else:
                    b.append([base + r.randint(0, iv - 1), gen_key(r), gen_value(r)])
                    live.append(b[-1])
            ops.append(["w", b])

        def act():
            c = lay.cloudy
            a = [["refresh", x], ["refresh", x], ["move", x, lay.storage()], ["move", x, r.choice(c) if c else lay.storage()]]
            if c:
                a += [["x", "upload partition if exists %d if cloud" % x]] * 2 + [["x", "download partition if exists %d if cloud" % x]] * 2
                a += [["move", x, r.choice(c)]]
            return r.choice(a)
        put()
        for _ in range(r.randint(3, 14)):
            k = r.random()
            if k < .25:
                put()
            elif k < .6:
                j = r.random()
                if j < .5:
                    f = ["var", r.choice(["error_refresh_1", "error_refresh_2", "error_refresh_3"] + ["error_upload", "error_download"] * bool(lay.cloudy))]
                else:
                    f = [r.choice(["fail", "fail", "failall", "short"]), r.choice(CLS), r.choice([0, 1, 2, 3, 4, r.randint(0, 12)]),
                         r.choice(["*", "*", "000", "mock/", ".cloud"]), r.choice([28, 5]), r.randint(0, 300)]
                ops.append(["fo", f, act()])
            elif k < .78:
                ops.append(act())
            elif k < .84 and lay.cloudy:
                ops.append(["dropon", x, r.choice(lay.cloudy), r.choice(["storage", "cloud"])])
            elif k < .88:
                ops.append(["drop", x])
                if r.random() < .5:
                    ops.append([r.choice(["newproc", "reopen", "crash"])])
                if r.random() < .5:
                    put()
            else:
                ops.append([r.choice(["newproc", "reopen", "crash"])])
            if r.random() < .3:
                ops.append(["scan"])
        return ops

    def run(self, case):
        w = Db(case["cfg"])
        w.start()

        def peek():
            w.s.ok("copy db db2")
            w.s.ok("use 1")
            opening(w.s, w.cfg, first=False, db="db2")
            w.s.lines[-2] = "init 1"
            w.scan("scan of a copy of the directory")
            w.s.ok("close")
            w.s.ok("rmtree db2")
            w.s.ok("use 0")

        def arm(f):
            w.line("fault %s %s %d %s %d %d" % tuple(f), lambda l, res: setattr(w, "soft", True))

        def disarm():
            def off(l, res):
                w.soft = False
                if "fired=0" not in res:
                    w.bump("faults_fired")
            w.line("fault status", None)
            w.s.lines[-1] = "fault off"
            w.s.cbs[-1] = off

        def fscan(state):
            def cb(line, res):
                if res.startswith("err"):
                    w.bump("refused")
                    m = re.match(r"err (.*) after (\d+)((?: \S+)*)$", res, re.S)
                    full = w.m.list()
                    if m and m.group(3).split() != full[:int(m.group(2))]:
                        raise Fail("events before a read error differ: " + diff(m.group(3).split(), full))
                    return
                got = parse_scan(res)
                if got is None:
                    raise Fail("scan failed: " + res[:200])
                if got != w.m.list():
                    raise Fail("scan during a fault differs: " + diff(got, w.m.list()))
            w.line("scan", cb)

        for o in case["ops"]:
            if o[0] == "fo":            # an operation which may fail, not repeated
                if o[1][0] == "var":
                    def refused(line, res):
                        if res.startswith("err"):
                            w.bump("refused")
                    w.cmd("set %s to true" % o[1][1])
                    w.line("x " + (o[2][1] if o[2][0] == "x" else "%s partition if exists %d" % tuple(o[2][:2]) + (" into " + o[2][2] if o[2][0] == "move" else "")), refused)
                    w.cmd("set %s to false" % o[1][1])
                else:
                    arm(o[1])
                    w.op(o[2])
                    disarm()
                w.scan("scan after a failed operation")
                continue
            if o[0] == "dropon":
                w.op(["move", o[1], o[2]])
                w.cmd("%s partition if exists %d if cloud" % ("upload" if o[3] == "storage" else "download", o[1]))
                w.cmd("drop partition if exists %d on %s" % (o[1], o[3]))
                w.scan("scan after a drop of one copy")
                continue
            if o[0] != "ft":
                w.op(o)
                continue
            _, pre, f, act, mid, inw = o
            for p in pre:
                w.op(p)
            if act[0] == "close":
                arm(f)
                w.line("close")
                disarm()
                w.s.new_session(w.started)
                opening(w.s, w.cfg, first=False)
                w.scan("scan after a close with an error")
                continue
            drop = act[0] in ("drop", "dropr")
            prep = []
            if act[0] == "dropon":      # the other copy must exist, always
                _, x, c, where = act
                prep = [["move", x, c], ["x", "%s partition if exists %d if cloud" % ("upload" if where == "storage" else "download", x)]]
                act = ["x", "drop partition if exists %d on %s" % (x, where)]
            for p in prep:
                w.op(p)
            box = {}
            if drop:
                w.show_parts()

                def sel(ps, act=act):
                    if act[0] == "drop":
                        return [p for p in ps if p["min"] <= act[1] <= p["max"]]
                    r = []
                    for p in ps:
                        if p["max"] < act[1]:
                            continue
                        if p["min"] < act[1] or p["max"] > act[2]:
                            break
                        r.append(p)
                    return r
                text = "drop partition if exists %d" % act[1] if act[0] == "drop" else "drop partitions between %d and %d" % (act[1], act[2])
                arm(f)

                def dropped(line, res, sel=sel, box=box):
                    s = box["sel"] = sel(w.parts)
                    if res.startswith("ok"):
                        for p in s:
                            w.m.drop(p["min"], p["max"])
                        w.bump("drops")
                        return
                    w.bump("refused")
                    if not res.startswith("err "):
                        raise Fail("drop answered " + res[:200])
                    alts = [w.m]
                    for p in s:         # each partition whole or dropped
                        if len(alts) > 64:
                            box["many"] = True
                            break
                        alts = alts + [a.copy() for a in alts]
                        for a in alts[len(alts) // 2:]:
                            a.drop(p["min"], p["max"])
                    box["alts"] = alts
                w.line("x " + text, dropped)
                disarm()

                def look(line, res, box=box):
                    got = parse_scan(res)
                    if got is None:
                        raise Fail("scan failed: " + res[:200])
                    alts = box.get("alts") or [w.m]
                    if not box.get("many") and not any(got == a.list() for a in alts):
                        raise Fail("scan after a failed drop differs from all %d possible contents: %s" % (len(alts), diff(got, alts[0].list())))
                w.line("scan", look)
                for m in mid:
                    if m[0] in ("newproc", "crash", "reopen"):
                        w.op(m)
                        w.line("scan", look)
                w.show_parts()

                def again(line, res, sel=sel, box=box):
                    if not res.startswith("ok"):
                        raise Fail("repeated '%s' answered %s" % (line, res[:200]))
                    for p in box["sel"] + sel(w.parts):
                        w.m.drop(p["min"], p["max"])
                w.line("x " + text, again)
                w.scan("scan after a repeated drop")
                continue
            arm(f)
            if act[0] == "scan":
                fscan(f)
            elif act[0] == "ck":
                w.cmd("checkpoint")
                w.drain(20)
            else:
                w.op(act)
            for b in inw:
                w.write(b, may_fail=True)
                if f[1] not in ("read", "any"):
                    w.scan("scan while writes fail")
            disarm()
            w.scan("scan after a failed operation")
            if inw:         # removes the record of a failed write from the log, if its truncation has failed as well
                w.write([[3, "6d", "-"]])
            for m in mid:
                if m[0] == "peek":
                    peek()
                else:
                    w.op(m)
                    if m[0] != "w":
                        w.scan("scan after %s following a failed operation" % m[0])
            # the same again
            for p in prep:
                w.op(p)
            if act[0] == "scan":
                w.scan("repeated scan")
            else:
                w.op(act)
            w.scan("scan after the repeated operation")
        w.write([[3, "6b", "x0102"]])
        w.cmd("checkpoint")
        w.drain(300)
        w.cmd('debug "wal_gc"')
        if not case["cloud"]:
            def onef(line, res):
                n = len(res.split()) - 1
                if n != 1:
                    raise Fail("%d log files after everything is refreshed: %s" % (n, res))
            w.line("files db/wal/", onef)

            def fds0(line, res):
                w.fds = int(res.split()[1])
            w.line("openfds", fds0)
        w.new_process()
        if not case["cloud"]:
            def fds1(line, res):
                w.bump("fd_checks")
                if int(res.split()[1]) != w.fds:
                    raise Fail("%d open files before close, %d after a fresh open" % (w.fds, int(res.split()[1])))
            w.line("openfds", fds1)
        w.scan("scan after reopen")
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = st.get("refused", 0) >= 2
        return st

    def shrink_steps(self, case):
        ops = case["ops"]
        for c in generic_shrinks(case):
            if len(c["ops"]) < len(ops) or c["cfg"] is not case["cfg"]:
                yield c
        for i, o in enumerate(ops):
            def sub(x):
                return dict(case, ops=ops[:i] + [x] + ops[i + 1:])
            if o[0] == "w":
                for s in op_shrinks(o):
                    yield sub(s)
            if o[0] != "ft":
                continue
            for k in (1, 4, 5):
                for j in range(len(o[k])):
                    yield sub(o[:k] + [o[k][:j] + o[k][j + 1:]] + o[k + 1:])
            for k in (1, 4):
                for j, x in enumerate(o[k]):
                    if x[0] == "w":
                        for s in op_shrinks(x):
                            yield sub(o[:k] + [o[k][:j] + [s] + o[k][j + 1:]] + o[k + 1:])
        d = case["cfg"].get("_ddl", [])
        for i in range(len(d)):
            yield dict(case, cfg=dict(case["cfg"], _ddl=d[:i] + d[i + 1:]))
