from hist import *


class NoLog(Db):
    """Model for a database without the log: m is the content in memory, cand the possible durable contents per partition."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.cand = {}              # partition -> list of possible durable contents (a dict key -> value each)
        self.where = {}             # partition -> storage name of the last SHOW PARTITIONS

    def part(self, id):
        return id // self.interval

    def content(self, p):
        lo, hi = p * self.interval, (p + 1) * self.interval
        return {k: v for k, v in self.m.d.items() if lo <= k[0] < hi}

    def known(self):
        return set(self.cand) | {self.part(k[0]) for k in self.m.d}

    def definite(self, p):
        c = self.content(p)
        if self.cand.get(p, [{}])[-1] != c:
            self.bump("refreshes")
        self.cand[p] = [c]

    def possible(self, ps=None):
        for p in (self.known() if ps is None else ps):
            c = self.content(p)
            l = self.cand.setdefault(p, [{}])
            if c not in l:
                l.append(c)

    def started(self, crashed, pos):
        if crashed:
            self.bump("crashes")
            eff = self.effects.get(pos)
            if eff:
                self.bump("crashes_in_effect")
                eff()

    def restart_scan(self, what):
        def cb(line, res):
            got = parse_scan(res)
            if got is None:
                raise Fail("%s failed: %s" % (what, res[:300]))
            by = {}
            for e in got:
                by.setdefault(self.part(int(e.split(':', 1)[0])), []).append(e)
            lost = 0
            new = {}
            for p in sorted(self.known() | set(by)):
                g = by.get(p, [])
                for c in self.cand.get(p, [{}]):
                    if Map(c).list() == g:
                        if c != self.content(p):
                            lost += 1
                        if c:
                            self.bump("durable_parts")
                        if len(self.cand.get(p, [{}])) > 1:
                            self.bump("ambiguous")
                        self.cand[p] = [c]
                        new.update(c)
                        break
                else:
                    cs = self.cand.get(p, [{}])
                    raise Fail("%s: partition %d (of %d possible contents): %s" % (what, p * self.interval, len(cs), diff(g, Map(cs[-1]).list())))
            if lost:
                self.bump("restarts_with_loss")
            self.bump("recoveries")
            self.m = Map(new)
            if got != self.m.list():
                raise Fail("%s: not in order: %s" % (what, diff(got, self.m.list())))
        self.line("scan", cb)

    def op(self, o):
        k = o[0]
        if k in ("refresh", "move", "offload"):
            p = self.part(o[1])
            self.show_parts()

            def cb(line, res):
                if res != "ok":
                    self.possible([p])
                    return
                if k == "refresh":
                    self.definite(p)
                    return
                at = [q for q in self.parts if q["min"] <= o[1] <= q["max"]]
                if at and at[0]["storage"] != o[2]:
                    self.definite(p)
                else:
                    self.possible([p])
            self.line("x refresh partition if exists %d" % o[1] if k == "refresh" else
                      "x move partition if exists %d into %s" % (o[1], o[2]), cb, lambda: self.possible([p]))
            if k == "offload":
                self.line("x upload partition if exists %d if cloud" % o[1], self.maybe([p]), lambda: self.possible([p]))
        elif k in ("upload", "download", "cloudoff"):
            # the copies are of the durable content
            self.line("x %s partition if exists %d if cloud" % ("upload" if k == "upload" else "download", o[1]),
                      self.maybe([self.part(o[1])]), lambda: self.possible([self.part(o[1])]))
        elif k == "refreshr":
            a, b = o[1], o[2]
            # every partition between, as far as the command goes
            self.line("x refresh partitions between %d and %d" % (a, b), self.maybe(None), lambda: self.possible())
        elif k == "mover":
            self.line("x move partitions between %d and %d into %s" % (o[1], o[2], o[3]), self.maybe(None), lambda: self.possible())
        elif k == "rebalance":
            self.drain(30)
            self.line("x rebalance", self.maybe(None), lambda: self.possible())
        elif k == "ck":
            box = {}

            def ck(line, res):
                box["ok"] = res == "ok"

            def drained(line, res):
                if box.get("ok") and res.startswith("ok") and not self.soft:
                    for p in self.known():
                        self.definite(p)
                else:
                    self.possible()
            self.line("x checkpoint", ck)
            self.line("until 200 x service", drained, lambda: self.possible())
        elif k == "drain":
            self.drain()
        elif k == "drop":
            p = self.part(o[1])

            def gone():
                l = self.cand.setdefault(p, [{}])
                if {} not in l:
                    l.append({})

            def cb(line, res):
                if res != "ok":
                    raise Fail("'%s' answered: %s" % (line, res[:200]))
                m = self.m.copy()
                m.drop(p * self.interval, min(M64, (p + 1) * self.interval - 1))
                if len(m.d) < len(self.m.d):
                    self.bump("drops_with_data")
                self.m = m
                self.cand[p] = [{}]
            self.line("x drop partition if exists %d" % o[1], cb, gone)
        elif k == "dropr":
            return self.op(["drop", o[1]])
        elif k in ("reopen", "newproc"):
            self.s.ok("close")
            if k == "newproc":
                self.s.new_session(self.started)
            opening(self.s, self.cfg, first=False)
            self.restart_scan("scan after reopen")
        elif k == "x":
            self.line("x " + o[1])
        elif k in ("w", "wb", "scan"):
            super().op(o)
        else:
            raise Fail("bad op %s" % k)
        return True

    def maybe(self, ps):
        return lambda line, res: self.possible(ps)

    def drain(self, n=24):
        self.line("until %d x service" % n, self.maybe(None), lambda: self.possible())

    def write(self, events):
        # nothing is durable: no effect when cut
        def cb(line, res):
            if not res.startswith("ok"):
                raise Fail("write refused: %s -> %s" % (line[:150], res[:200]))
            m = self.m.copy()
            m.apply(events)
            self.m = m
            self.bump("writes")
            self.bump("events", len(events))
        self.line("w " + " ".join(ev_text(e) for e in events), cb)

    def bulk(self, start, step, count, batch, key, kind, seed, ln):
        evs = list(bulk_events(start, step, count, key, kind, seed, ln))

        def cb(line, res):
            if res != "ok":
                raise Fail("write refused: %s -> %s" % (line[:150], res[:200]))
            m = self.m.copy()
            for e in evs:
                m.put(*e)
            self.m = m
            self.bump("writes", (count + batch - 1) // max(1, batch))
            self.bump("events", count)
        self.line("wb %d %d %d %d %s %s %d %d" % (start, step, count, batch, key, kind, seed, ln), cb)


class Check(Property):
    id = "C24"
    level = "fault_enumeration"
    quick = 5000
    thorough = 60000
    rule = ("a case is a configuration with the log disabled, a layout of storages (optional mock cloud, pipeline) and 1-5 segments of writes, refreshes, "
            "moves, uploads, downloads, checkpoints and drops, each ended by a clean close or by a crash at a random file-system mutation (also torn writes and power loss; "
            "also a failing call instead), possibly with crashes during recovery and the directory read in any order; after each restart every "
            "partition holds exactly its content of its last completed refresh, or of one that was possibly running; non-trivial: a restart lost "
            "unrefreshed events of one partition and kept refreshed ones of some partition")
    assumptions = ["power loss keeps a prefix of the bytes of a file that were not synced; renames, creations and removals are durable in order",
                   "power-loss cases have sync on, what the mock cloud holds survives; one thread"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 3, 10, 10, 100, 1000, 1 << 32])
        cfg["wal"] = False
        ploss = r.random() < 0.35
        lay = Layout(r, cfg, nmax=3, cloud=0.4, pipeline=0.15, sync=not ploss)
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts", "parts", "mod32", "edges"]))
        if ids.n // cfg["interval"] > 8:
            ids.n = cfg["interval"] * 8
        segs = []
        for s in range(r.choice([1, 2, 2, 3, 5])):
            ops = []
            for _ in range(r.randint(1, 16)):
                k = r.random()
                if k < 0.5:
                    ops.append(["w", gen_batch(r, ids, r.choice([2, 4, 12]), big=0.02)])
                elif k < 0.54:
                    ops.append(["wb", ids.fresh() // 2, 1, r.choice([20, 200]) if cfg["interval"] >= 100 else 12, r.choice([1, 5]), "-", "r", r.randint(0, 1 << 30), r.choice([0, 20])])
                elif k < 0.94:
                    ops.append(gen_maint(r, ids, lay, drops=0.1, alters=False))
                else:
                    ops.append(r.choice([["ck"], ["drain"], ["reopen"], ["newproc"], ["scan"], ["x", 'debug "wal_gc"'], ["x", 'debug "wal_create"']]))
            seg = {"ops": ops, "at": r.randint(max(0, len(ops) - 8), len(ops) - 1), "end": r.choice(["crash", "crash", "close"])}
            if r.random() < 0.8:
                mode = r.choice(["ploss", "ptorn"] if ploss else ["kill", "kill", "torn", "fail"])
                cls = "wr" if mode.endswith("torn") else r.choice(["mut", "mut", "mut", "wr", "unlink", "rename", "create", "sync"])
                seg["fault"] = [mode, cls, r.choice([0, 1, 2, 3, r.randint(0, 12), r.randint(0, 30)]), r.choice(["*", "*", "*", "000"]), r.randint(0, 1 << 30)]
            if r.random() < 0.3:
                seg["open"] = [["ploss" if ploss else "kill", "mut", r.choice([0, 1, 2, 3, r.randint(0, 12)])] for _ in range(r.choice([1, 1, 2]))]
            seg["rnd"] = r.randint(1, 1 << 30)
            seg["dir"] = r.choice([0, 0, 1, r.randint(2, 1 << 30)])
            segs.append(seg)
        return {"cfg": cfg, "segs": segs, "ploss": ploss, "variant": "asan" if r.random() < 0.06 else "plain"}

    def run(self, case):
        w = NoLog(dict(case["cfg"], wal=False))
        ploss = case.get("ploss")

        def begin(seg):
            if ploss:
                w.line("track 1")
            w.line("readdir %d" % seg.get("dir", 0))
        begin({})
        w.start()
        for seg in case["segs"]:
            f = seg.get("fault")
            soft = False
            for i, o in enumerate(seg["ops"]):
                if f and i == seg["at"]:
                    soft = f[0] == "fail"
                    w.line("fault %s %s %d %s 28 %d" % tuple(f), lambda line, res: setattr(w, "soft", True) if line.startswith("fault fail ") else None)
                if soft and o[0] in ("drop", "dropr", "reopen", "newproc"):
                    continue
                w.op(o)
            if soft:
                w.line("fault off", lambda line, res: setattr(w, "soft", False))
                w.scan("scan after a failed call")
            if seg["end"] == "close" and (soft or not f):
                w.s.ok("close")
            else:
                w.line("crash %d" % seg["rnd"] if ploss else "crash")
            w.s.new_session(w.started)
            for k, (mode, cls, nth) in enumerate(seg.get("open", [])):
                begin(seg)
                w.line("fault %s %s %d * 28 %d" % (mode, cls, nth, seg["rnd"] + k))
                opening(w.s, w.cfg, first=False)
                w.line("crash %d" % (seg["rnd"] + 7) if ploss else "crash")
                w.s.new_session(w.started)
            begin(seg)
            opening(w.s, w.cfg, first=False)
            w.restart_scan("scan after restart")
        w.write([[3, "6b", "x0102"], [4, "6c", "-"]])
        w.op(["ck"])
        w.scan("scan after maintenance")
        w.op(["newproc"])
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = st.get("restarts_with_loss", 0) > 0 and st.get("durable_parts", 0) > 0
        return st

    def shrink_steps(self, case):
        from crash import CrashCheck
        return CrashCheck.shrink_steps(self, case)
