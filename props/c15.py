from hist import *

LIMS = ["partitions", "size", "events", "duration"]


class Check(Property):
    id = "C15"
    quick = 2600
    thorough = 60000
    rule = ("a case is 1-4 storages (some with a mock cloud), a pipeline altered several times with any subset of limits per tier, and writes that "
            "create partitions, moves, refreshes, clock steps, restarts; around every explicit rebalance, every automatic one after a partition "
            "was created, and every failed-then-retried one, the partitions are compared: limits hold, each tier gave away its oldest, no more "
            "than needed, untouched storages are untouched, exactly the partitions dropped by the last tier are gone from the scan; new "
            "partitions go to the first tier; non-trivial: a rebalance moved or dropped a partition and another one was kept by a limited tier")
    assumptions = ["one thread, no background workers; virtual clock"]
    variants = ["plain"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 3, 10, 10, 100])
        lay = Layout(r, cfg, nmax=3, cloud=.3, sync=False)
        iv = cfg["interval"]
        names = lay.names
        ids = Ids(r, iv, "parts")
        ops = []
        for i in range(r.choice([0, 2, 3, 4])):
            ops += [["w", [[r.randint(0, 12) * iv + r.randint(0, iv - 1), gen_key(r), gen_value(r)] for _ in range(r.choice([2, 5, 12]))]], ["t", r.choice([0, 5, 1000])]]
            if r.random() < .4:
                ops.append(["ck"])
        for _ in range(r.randint(4, 26)):
            k = r.random()
            if k < .22:
                ops.append(["w", [[r.randint(0, 12) * iv + r.randint(0, iv - 1), gen_key(r), gen_value(r)] for _ in range(r.choice([1, 3, 8, 20]))]])
            elif k < .3:
                ops.append(["w", [[r.randint(0, 12) * iv + r.randint(0, iv - 1), gen_key(r), gen_value(r), int(r.random() < .3)] for _ in range(r.choice([1, 3]))]])
            elif k < .42:
                ops.append(["t", r.choice([0, 1, 1000, 10 ** 6])])
            elif k < .62:
                order = names[:]
                r.shuffle(order)
                order = order[:r.randint(1, len(order))]
                t = []
                for i, n in enumerate(order):
                    last = i + 1 == len(order)
                    ls = r.sample(LIMS, r.choice([1, 1, 1, 2, 3])) if not last or r.random() < .35 else []
                    t.append([n, [[l, {"partitions": r.choice([0, 1, 2, 3, 5, 100]), "size": r.choice([0, 1, 60, 200, 1000, 1 << 20]),
                                       "events": r.choice([0, 1, 2, 5, 20, 1000]), "duration": r.choice([0, 1, 1000, 10 ** 6, 10 ** 9])}[l]] for l in ls]])
                ops.append(["pipe", t if r.random() < .95 else []])
                if r.random() < .6:
                    ops.append(["reb"])
            elif k < .74:
                ops.append(["reb"])
            elif k < .8:
                ops.append(["auto", r.randint(0, 13) * iv])
            elif k < .86:
                ops.append(["rebfail", r.choice([["v", 1], ["v", 2], ["v", 3], ["f", "mut", r.randint(0, 12)], ["f", "create", r.randint(0, 3)], ["u"], ["d"]])])
            elif k < .9:
                ops.append(["move", r.randint(0, 12) * iv, r.choice(names)])
            elif k < .95:
                ops.append(["ck"])
            else:
                ops.append([r.choice(["reopen", "newproc"])])
        return {"cfg": cfg, "ops": ops}

    def run(self, case):
        w = Db(case["cfg"])
        w.line("time 1000000000 0")
        w.start()
        st = {"pipe": [], "now": 1000000000, "parts": None, "moved": 0, "dropped": 0, "kept": 0}

        def snap(cb):
            box = {}

            def a(line, res):
                box["d"] = {p["min"] & M64: p for p in jparse(res)}

            def b(line, res):
                ps = {}
                for p in parts_of(res):
                    i = box["d"][p["min"]].get("index") or {"size_regions": 0}
                    p["m"] = {"partitions": 1, "size": i["size_regions"], "events": p["events"] - p["events_heap"]}
                    ps[p["min"]] = p
                cb(ps)
            w.line("x show partitions debug", a)
            w.line("x show partitions", b)

        def save(ps):
            st["parts"] = ps

        def gone(ps):
            """partitions dropped by something that may rebalance; not judged"""
            pipe = st["pipe"]
            for m, p in st["parts"].items():
                if m not in ps:
                    if not pipe or not pipe[-1][1]:
                        raise Fail("partition %d of %s disappeared, pipeline %s" % (m, p["storage"], json.dumps(pipe)))
                    w.m.drop(p["min"], p["max"])
            st["parts"] = ps

        def over(t, ms, ps, now):
            """limits of the tier exceeded by partitions ps"""
            r = []
            for l, v in t:
                if l == "duration":
                    if any(now - p["created"] >= v for p in ps):
                        r.append(l)
                elif sum(ms(p)[l] for p in ps) > v:
                    r.append(l)
            return r

        def judge(exact):
            def cb(after):
                before = st["parts"]
                pipe = st["pipe"]
                names = [t[0] for t in pipe]
                now = st["now"]
                pos = {n: i for i, n in enumerate(names)}
                for m, p in before.items():
                    q = after.get(m)
                    if q is None and (not pipe or p["storage"] not in pos or not pipe[-1][1]):
                        raise Fail("rebalance dropped partition %d of %s, pipeline %s" % (m, p["storage"], json.dumps(pipe)))
                    if q is not None and q["storage"] != p["storage"]:
                        if p["storage"] not in pos or q["storage"] not in pos or pos[q["storage"]] < pos[p["storage"]]:
                            raise Fail("rebalance moved partition %d from %s to %s, pipeline %s" % (m, p["storage"], q["storage"], json.dumps(pipe)))
                    if q is None:
                        st["dropped"] += 1
                        w.m.drop(p["min"], p["max"])
                    else:
                        if (q["min"], q["max"]) != (p["min"], p["max"]) or q["created"] != p["created"]:
                            raise Fail("rebalance changed partition %s to %s" % (p, q))
                        if q["storage"] != p["storage"]:
                            st["moved"] += 1
                if set(after) - set(before):
                    raise Fail("rebalance created partitions %s" % sorted(set(after) - set(before)))
                for i, (n, t) in enumerate(pipe):
                    A = [p for p in after.values() if p["storage"] == n]
                    o = over(t, lambda p: p["m"], A, now)
                    if o:
                        raise Fail("storage %s exceeds its %s limit after rebalance: %s has %s" % (n, o, json.dumps(t), [(p["min"], p["m"], p["created"]) for p in A]))
                    if t and A:
                        st["kept"] += 1
                    if not exact:
                        continue

                    def lvl(m):         # tier reached, len(pipe) when dropped
                        return pos[after[m]["storage"]] if m in after else len(pipe)
                    inn = [p for m, p in before.items() if p["storage"] in pos and pos[p["storage"]] <= i]
                    out = [p for p in inn if lvl(p["min"]) > i]
                    if out and A and max(p["created"] for p in out) > min(p["created"] for p in A):
                        raise Fail("storage %s gave away a partition newer than one it kept: out %s kept %s" % (n, [(p["min"], p["created"]) for p in out], [(p["min"], p["created"]) for p in A]))
                    if out:
                        mx = max(p["created"] for p in out)
                        fine = False
                        for p in out:
                            if p["created"] != mx:
                                continue
                            here = p["storage"] == n
                            if not here and any(l == "size" or l == "events" and p["events_heap"] for l, v in t):
                                fine = True     # its size while it passed through is not known
                            if over(t, lambda x: x["m"], A + [p], now):
                                fine = True
                        if not fine:
                            raise Fail("storage %s gave away more partitions than its limits %s require: out %s kept %s" % (
                                n, json.dumps(t), [(p["min"], p["m"], p["created"]) for p in out], [(p["min"], p["m"], p["created"]) for p in A]))
                        w.bump("tiers_rebalanced")
                st["parts"] = after
                w.bump("rebalances")
            return cb

        def primary(prev):
            def cb(ps):
                want = st["pipe"][0][0] if st["pipe"] else "main"
                for m in ps:
                    if m not in prev["p"] and ps[m]["storage"] != want:
                        raise Fail("new partition %d on storage %s instead of %s" % (m, ps[m]["storage"], want))
                st["parts"] = ps
            return cb

        def drain():
            snap(save)
            w.drain(60)
            snap(gone)
        for o in case["ops"]:
            k = o[0]
            if k == "t":
                w.line("timeadd %d" % (o[1] + 1), lambda line, res, d=o[1] + 1: st.__setitem__("now", st["now"] + d))
            elif k == "pipe":
                drain()
                if not o[1]:
                    w.cmd("alter pipeline reset")
                else:
                    w.cmd("alter pipeline set " + ", ".join(n + (" (%s)" % ", ".join("%s %d" % tuple(l) for l in t) if t else "") for n, t in o[1]))

                w.line("x show pipeline", lambda line, res, p=o[1]: st.__setitem__("pipe", p))
            elif k == "w":
                prev = {}
                snap(lambda ps, prev=prev: prev.__setitem__("p", ps))
                w.op(o)
                snap(primary(prev))
            elif k == "reb":
                drain()
                snap(save)
                w.cmd("rebalance")
                snap(judge(True))
                w.scan("scan after rebalance")
            elif k == "auto":
                drain()
                box = {}
                snap(lambda ps, box=box: box.__setitem__("p", ps))
                w.line("timeadd 1", lambda line, res: st.__setitem__("now", st["now"] + 1))
                w.write([[o[1], "-", "x00"]])

                def fresh(ps, box=box):
                    st["parts"] = ps
                    box["new"] = set(ps) - set(box["p"])
                    if box["new"] and (max(ps) in box["new"] or any("refresh_wm" in c for c in case["cfg"]["_ddl"])):
                        box["new"] = None       # the previous newest partition is scheduled for refresh as well
                snap(fresh)
                w.drain(60)
                snap(lambda ps, box=box: (judge(True) if box["new"] else gone)(ps))
                w.scan("scan after automatic rebalance")
            elif k == "rebfail":
                drain()
                snap(save)
                f = o[1]
                if f[0] == "v":
                    w.cmd("set error_refresh_%d to true" % f[1])
                elif f[0] == "f":
                    w.line("fault fail %s %d 000" % (f[1], f[2]))
                else:
                    w.cmd("set error_%s to true" % {"u": "upload", "d": "download"}[f[0]])
                w.cmd("rebalance", must=False)
                if f[0] == "v":
                    w.cmd("set error_refresh_%d to false" % f[1])
                elif f[0] == "f":
                    w.line("fault off")
                else:
                    w.cmd("set error_%s to false" % {"u": "upload", "d": "download"}[f[0]])
                w.cmd("rebalance")
                snap(judge(False))
                w.scan("scan after a retried rebalance")
            elif k in ("ck", "move"):
                drain()
                w.op(o)
                snap(gone)
                w.scan()
            else:
                drain()
                box = {}
                snap(lambda ps, box=box: box.__setitem__("p", ps))
                w.op(o)
                if k == "newproc":
                    w.line("time 1000000000 0")
                    w.line("nop", None)
                    w.lines_now = None

                def kept(ps, box=box):
                    for m, p in ps.items():
                        q = box["p"].get(m)
                        if q and q["refreshes"] and p["refreshes"] and (p["created"] != q["created"] or p["storage"] != q["storage"]):
                            raise Fail("restart changed partition %s to %s" % (q, p))
                    st["parts"] = ps
                if k == "newproc":      # the clock starts again later than before
                    w.line("timeadd %d" % (1 << 40), lambda line, res: st.__setitem__("now", 1000000000 + (1 << 40)))
                snap(kept)
                w.scan("scan after restart")
        s = w.run(self.driver("plain"))
        s.update({k: st[k] for k in ("moved", "dropped", "kept")})
        s["nontrivial"] = st["moved"] + st["dropped"] > 0 and st["kept"] > 0
        return s
