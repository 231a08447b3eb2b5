"""Histories cut by crashes: process kill, torn writes and power loss at any file-system mutation."""
from hist import *


class CrashCheck(Property):
    level = "fault_enumeration"
    variants = ["plain", "asan"]
    weights = dict(write=0.6, bulk=0.06, maint=0.25, misc=0.09)
    drops = 0.0

    def layout(self, r, cfg, ploss):
        return Layout(r, cfg, nmax=2, cloud=0.3, pipeline=0.15, sync=not ploss, absolute=True)

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 3, 10, 10, 100, 1000, 1 << 32])
        ploss = r.random() < 0.4
        if ploss or r.random() < 0.4:
            cfg["wal_sync_on_write"] = True
        if r.random() < 0.6:
            cfg["wal_rotate_wm"] = r.choice([1, 60, 200, 1000])
        lay = self.layout(r, cfg, ploss)
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts", "parts", "mod32", "edges"]))
        if ids.n // cfg["interval"] > 8:
            ids.n = cfg["interval"] * 8
        segs = []
        for s in range(r.choice([1, 1, 2, 2, 3, 5])):
            seg = {"ops": []}
            for _ in range(r.randint(1, 16)):
                seg["ops"].append(self.gen_op(r, ids, lay, cfg))
            for _ in range(r.randint(0, 3)):      # operations before the fault is armed
                seg["ops"].insert(0, self.gen_op(r, ids, lay, cfg))
            n = len(seg["ops"])
            seg["at"] = r.randint(max(0, n - 8), n)
            if r.random() < 0.9:
                mode = r.choice(["ploss", "ptorn"] if ploss else ["kill", "kill", "torn"])
                cls = "wr" if mode.endswith("torn") else r.choice(["mut", "mut", "mut", "wr", "unlink", "rename", "create", "sync"])
                seg["fault"] = [mode, cls, r.choice([0, 1, 2, 3, r.randint(0, 12), r.randint(0, 40)]), r.choice(["*", "*", "*", "wal/", "000"]), r.randint(0, 1 << 30)]
            if r.random() < 0.35:                 # crash during recovery as well
                seg["open"] = [["ploss" if ploss else "kill", "mut", r.choice([0, 1, 2, 3, r.randint(0, 20)])] for _ in range(r.choice([1, 1, 2]))]
            seg["rnd"] = r.randint(1, 1 << 30)
            seg["dir"] = r.choice([0, 0, 1, r.randint(2, 1 << 30)])
            segs.append(seg)
        return {"cfg": cfg, "segs": segs, "ploss": ploss, "variant": "asan" if r.random() < 0.06 else "plain"}

    def gen_op(self, r, ids, lay, cfg):
        w = self.weights
        k = r.random()
        if k < w["write"]:
            return ["w", gen_batch(r, ids, r.choice([2, 4, 12]), big=0.02)]
        k -= w["write"]
        if k < w["bulk"]:
            n = r.choice([20, 200]) if cfg["interval"] >= 100 else 12
            return ["wb", ids.fresh() // 2, 1, n, r.choice([1, 5]), "-", "r", r.randint(0, 1 << 30), r.choice([0, 20])]
        k -= w["bulk"]
        if k < w["maint"]:
            while True:
                o = gen_maint(r, ids, lay, drops=self.drops, alters=False)
                if o[0] not in ("reopen", "newproc"):
                    return o
        return r.choice([["x", 'debug "wal_create"'], ["x", 'debug "wal_gc"'], ["drain"], ["ck"], ["reopen"], ["scan"],
                         ["x", "set interval to %d" % r.choice([1, 2, 3, 7, 10, 50, 100, 1000, 1 << 20, 1 << 33])]])

    def run(self, case):
        w = Db(case["cfg"])
        ploss = case.get("ploss")

        def begin(seg):
            if ploss:
                w.line("track 1")
            w.line("readdir %d" % seg.get("dir", 0))
        begin({})
        w.start()
        for seg in case["segs"]:
            f = seg.get("fault")
            for i, o in enumerate(seg["ops"]):
                if f and i == seg["at"]:
                    w.line("fault %s %s %d %s 28 %d" % (f[0], f[1], f[2], f[3], f[4]))
                    w.armed = True
                w.op(o)
            if f and seg["at"] >= len(seg["ops"]):
                w.line("fault %s %s %d %s 28 %d" % (f[0], f[1], f[2], f[3], f[4]))
                w.op(["w", [[1, "63", "x0a0b"]]])
            w.line("crash %d" % seg["rnd"] if ploss else "crash")
            w.s.new_session(w.started)
            for k, (mode, cls, nth) in enumerate(seg.get("open", [])):
                begin(seg)
                w.line("fault %s %s %d * 28 %d" % (mode, cls, nth, seg["rnd"] + k))
                opening(w.s, w.cfg, first=False)
                w.line("crash %d" % (seg["rnd"] + 7) if ploss else "crash")
                w.s.new_session(w.started)
            begin(seg)
            opening(w.s, w.cfg, first=False)
            w.scan("scan after crash")
            w.bump("recoveries")
        # the recovered database works, and keeps everything
        w.write([[3, "6b", "x0102"], [4, "6c", "-"]])
        w.refresh_all()
        w.scan("scan after maintenance")
        w.new_process()
        w.scan("scan after reopen")
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = st.get("crashes_in_effect" if self.id == "C06" else "crashes", 0) > 0 and len(w.m.d) > 2
        return st

    def shrink_steps(self, case):
        segs = case["segs"]
        for i in range(len(segs)):
            if len(segs) > 1:
                c = dict(case)
                c["segs"] = segs[:i] + segs[i + 1:]
                yield c
        for i, s in enumerate(segs):
            if s.get("open"):
                t = dict(s)
                t["open"] = s["open"][1:]
                yield dict(case, segs=segs[:i] + [t] + segs[i + 1:])
            for sub in generic_shrinks({"ops": s["ops"]}):
                t = dict(s, ops=sub["ops"])
                t["at"] = max(0, min(len(sub["ops"]), s["at"] - (len(s["ops"]) - len(sub["ops"]))))
                yield dict(case, segs=segs[:i] + [t] + segs[i + 1:])
                if t["at"] != s["at"] and s["at"] <= len(sub["ops"]):
                    yield dict(case, segs=segs[:i] + [dict(t, at=s["at"])] + segs[i + 1:])
        for c in generic_shrinks({"cfg": case["cfg"]}):
            yield dict(case, cfg=c["cfg"])
        d = case["cfg"].get("_ddl", [])
        for i in range(len(d)):
            yield dict(case, cfg=dict(case["cfg"], _ddl=d[:i] + d[i + 1:]))
