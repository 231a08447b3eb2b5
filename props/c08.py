from hist import *


class Check(Property):
    id = "C08"
    quick = 4000
    thorough = 40000
    rule = ("a case is a layout (1-4 storages with different compression, encryption, region size, checksums, optional mock cloud and "
            "pipeline) and up to 40 operations: writes interleaved with refresh, move, upload, download, offload, checkpoint, service, "
            "rebalance, alter (clouds of storages too), rename, log rotation and garbage collection, restarts; a full scan after maintenance must equal the "
            "model; non-trivial: at least three maintenance commands succeeded with two or more events present")
    assumptions = ["one thread, no background workers (service requests are executed explicitly)"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [3, 10, 10, 100, 1000, 1 << 32])
        lay = Layout(r, cfg, pipeline=0.3, absolute=True)
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts", "parts", "mod32"]))
        if ids.n // cfg["interval"] > 12:
            ids.n = cfg["interval"] * 12
        recloud = lay.has_cloud and r.random() < 0.4
        ops = []
        for _ in range(r.randint(4, 34)):
            k = r.random()
            if k < 0.36:
                ops.append(["w", gen_batch(r, ids, r.choice([3, 8, 30]))])
            elif k < 0.4:
                ops.append(["wb", ids.fresh(), 1, r.choice([30, 300, 700]) if cfg["interval"] >= 100 else 20, 10, "-", "r", r.randint(0, 1 << 30), r.choice([0, 20])])
            elif recloud and k < 0.58:
                # clouds of the storages are changed, dropped and created again
                s = r.choice(lay.names)
                j = r.random()
                if j < 0.35:
                    ops.append(["mover", 0, I63, r.choice(lay.names)])
                    ops.append(["x?", "alter storage %s set (cloud '%s')" % (s, r.choice(["", "cl", "c2"]))])
                elif j < 0.7:
                    ops.append(["x?", "alter storage %s set (cloud '%s')" % (s, r.choice(["", "cl", "c2"]))])
                elif j < 0.82:
                    ops.append(["x?", "drop cloud if exists %s" % r.choice(["cl", "c2"])])
                elif j < 0.9:
                    ops.append(["x", "create cloud if not exists %s (type 'mock')" % r.choice(["cl", "c2"])])
                else:
                    if r.random() < 0.6:
                        for n in lay.names:
                            ops.append(["x?", "alter storage %s set (cloud '')" % n])
                        ops.append(["refreshr", 0, I63])
                        ops.append(["x", "create cloud if not exists cl (type 'mock')"])
                        ops.append(["x?", "alter storage %s set (cloud 'cl')" % s])
                    for n in lay.names:
                        ops.append(["x?", "alter storage %s set (cloud '')" % n])
                    ops.append(["x?", "drop cloud cl"])
                    ops.append(r.choice([["upload", r.choice(ids.used or [0])], ["refreshr", 0, I63], ["mover", 0, I63, s]]))
            elif k < 0.9:
                ops.append(gen_maint(r, ids, lay))
                if r.random() < 0.5:
                    ops.append(["scan"])
            elif ids.used:
                ops.append(["seek", r.choice(ids.used) + r.choice([0, 0, 1]), gen_key(r), 5])
        return {"cfg": cfg, "ops": ops, "keep": recloud, "variant": "asan" if r.random() < (0.3 if recloud else 0.12) else "plain"}

    def run(self, case):
        w = Db(case["cfg"])
        w.keep = case.get("keep", False)
        w.start()
        for o in case["ops"]:
            w.op(o)
        w.scan("scan after maintenance")
        self.clouds(w)
        w.reopen()
        w.scan("scan after reopen")
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = len(w.m.d) >= 2 and st.get("commands", 0) >= 3
        return st

    def clouds(self, w):
        """a partition can be on a cloud only if its storage has one"""
        conf = {}

        def storages(line, res):
            if res.startswith("ok"):
                for n, s in jparse(res).items():
                    conf[n] = s["config"]["cloud"]

        def parts(line, res):
            for p in parts_of(res):
                if p["on_cloud"] and not conf.get(p["storage"], "?"):
                    raise Fail("partition %d is on a cloud, its storage %s has no cloud" % (p["min"], p["storage"]))
        w.line("x show storages", storages)
        w.line("x show partitions", parts)
