from world import *


class Check(Property):
    id = "C01"
    quick = 5000
    thorough = 60000
    rule = ("a case is a configuration (partition interval 1..2^63-1, page size, region size, compression, checksums) and up to 40 "
            "operations (batches of inserts/replacements/deletes with repeated and colliding keys, bulk loads, refreshes of chosen or all "
            "partitions) with full scans in between compared with an ordered-map model; non-trivial: at least one scan returned 2 or more "
            "events after at least one update or delete of an existing key or one refresh")
    assumptions = ["one thread, no background workers (service requests are executed explicitly)"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r)
        if r.random() < 0.25:
            cfg["interval"] = r.choice([1 << 33, 1 << 40, (1 << 62), (1 << 63) - 1])
        ids = Ids(r, cfg["interval"])
        if cfg["interval"] <= 7 and ids.flavour in ("gaps", "dense"):
            ids.n = 30
        ops = []
        for _ in range(r.randint(2, 30)):
            k = r.random()
            if k < 0.66:
                ops.append(["w", gen_batch(r, ids, r.choice([3, 8, 30]))])
            elif k < 0.74:
                n = r.choice([30, 200, 520, 1100])
                step = r.choice([1, 1, 2, 5, 1 << 20, 1 << 32])
                if step * n // cfg["interval"] > 40:
                    step, n = 1, min(n, cfg["interval"] * 30)
                start = ids.fresh()
                if start + step * n >= M64:
                    start = 0
                if r.random() < 0.3:     # descending or interleaved
                    ops.append(["wb", start + 1, step * 2, n // 2 + 1, 7, "-", "r", r.randint(0, 1 << 30), r.choice([0, 5, 40])])
                ops.append(["wb", start, step, n, r.choice([1, 10, 100]), "-", "r", r.randint(0, 1 << 30), r.choice([0, 5, 40])])
                ids.used += [start, start + step, start + step * (n - 1)]
            elif k < 0.88:
                if r.random() < 0.5 and ids.used:
                    u = r.choice(ids.used)
                    ops.append(["x?", "refresh partition if exists %d" % (u - u % cfg["interval"])])
                else:
                    ops.append(["ck"])
            else:
                ops.append(["scan"])
        return {"cfg": cfg, "ops": ops, "variant": "asan" if r.random() < 0.15 else "plain"}

    def run(self, case):
        w = World(case["cfg"])
        w.start()
        for o in case["ops"]:
            w.op(o)
        w.scan("final scan")
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = len(w.m.d) >= 2 and any(o[0] in ("ck", "x?") for o in case["ops"])
        return st
