from hist import *


class Check(Property):
    id = "C02"
    quick = 3600
    thorough = 50000
    rule = ("a case is a layout (partition interval, region size, compression, optional storages and mock cloud), content written in "
            "several phases with partial refreshes, moves and offloads, and 6-30 cursor opens at positions equal to, next to, between and "
            "outside of the stored keys; each cursor must return the tail of the ordered-map model; non-trivial: at least one cursor "
            "started strictly inside the content and content was in memory and in a file")
    assumptions = ["one thread, no background workers (service requests are executed explicitly)"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r)
        lay = Layout(r, cfg, nmax=2, cloud=0.3)
        ids = Ids(r, cfg["interval"])
        if ids.flavour in ("dense", "gaps") and ids.n // cfg["interval"] > 12:
            ids.n = cfg["interval"] * 12
        ops = []
        keys = []

        def probe():
            j = r.random()
            if j < 0.65 and keys:
                i, k = r.choice(keys)
                t = r.random()
                if t < 0.35:
                    pass
                elif t < 0.5:
                    i = min(M64 - 1, i + 1)
                    k = r.choice(["-", k])
                elif t < 0.65:
                    i = max(0, i - 1)
                    k = r.choice(["ff" * 255, k, "-"])
                elif t < 0.68:      # longer than any key can be: refused or exact
                    k = ("" if k == "-" or k[0] in "rc" else k) + "%02x" % r.choice([0, 97, 255]) * r.choice([255, 256, 257, 512])
                elif t < 0.8:
                    k = "-"
                else:
                    k = gen_key(r)
            elif j < 0.9:
                i, k = ids.fresh(), gen_key(r)
                if r.random() < 0.3:
                    i = i - i % cfg["interval"]
                elif r.random() < 0.2:
                    i = min(M64 - 1, i - i % cfg["interval"] + cfg["interval"] - 1)
            else:
                i, k = r.choice([(0, "-"), (M64 - 1, "ff" * 255), (1 << 63, "-"), (1 << 32, "-")])
            return ["seek", i, k, r.choice([0, 0, 1, 3, 600])]
        for _ in range(r.randint(1, 5)):
            for _ in range(r.randint(1, 5)):
                if r.random() < 0.75:
                    b = gen_batch(r, ids, r.choice([3, 10, 40]), big=0.01)
                    keys += [(e[0], e[1]) for e in b]
                    ops.append(["w", b])
                else:
                    n = r.choice([20, 300, 520, 1100])
                    step = r.choice([1, 2, 3, 1 << 31])
                    if step * n // cfg["interval"] > 30:
                        step = 1
                        n = min(n, cfg["interval"] * 30)
                    s = ids.fresh()
                    if s + step * n >= M64:
                        s = 1
                    key = r.choice(["-", "-", "61"])
                    if r.random() < .5:
                        ops.append(["wb", s, step, n, 10, key, "r", 1, r.choice([0, 12])])
                    else:
                        ops.append(["wb", s + step, step * 2, (n + 1) // 2, 10, key, "r", 1, 4])
                        ops.append(["wb", s, step * 2, (n + 1) // 2, 10, key, "r", 2, 4])
                    keys += [(s, key), (s + step * (n // 2), key), (s + step * (n - 1), key)]
                    for q in (127, 128, 255, 256, 507, 508, 509, 511, 512, 513):
                        if q < n:
                            keys.append((s + step * q, key))
                    ids.used += [s, s + step * (n - 1)]
            for _ in range(r.randint(0, 3)):
                m = gen_maint(r, ids, lay)
                if m[0] not in ("reopen", "newproc") or r.random() < 0.3:
                    ops.append(m)
            for _ in range(r.randint(2, 6)):
                ops.append(probe())
        return {"cfg": cfg, "ops": ops, "variant": "asan" if r.random() < 0.12 else "plain"}

    def run(self, case):
        w = Db(case["cfg"])
        w.start()
        for o in case["ops"]:
            w.op(o)
        w.scan("full scan")
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = st.get("mid_seeks", 0) > 0
        return st
