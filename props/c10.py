from hist import *


class Ranges:
    """model of the partition ranges"""

    def __init__(self):
        self.p = []

    def cover(self, x):
        for a, b in self.p:
            if a <= x <= b:
                return (a, b)

    def fill(self, lo, hi):
        new = []
        x = lo
        for a, b in sorted(self.p):
            if b < x:
                continue
            if a > hi:
                break
            if x < a:
                new.append((x, a - 1))
            x = b + 1
            if x > hi:
                break
        if x <= hi:
            new.append((x, hi))
        self.p = sorted(self.p + new)
        return new


class Check(Property):
    id = "C10"
    quick = 5000
    thorough = 60000
    rule = ("a case is an interval and up to 40 operations over the whole 64-bit range: writes, explicit partitions of any range (overlapping, "
            "nested, adjacent, reversed), interval changes, drops of one or a range, refreshes, moves, restarts; after every operation SHOW "
            "PARTITIONS equals a range model (gaps of the aligned interval or of the explicit range are created, nothing else changes) and is "
            "disjoint, and every live event is covered and found by a scan; non-trivial: three or more partitions and an explicit partition, an "
            "interval change or a drop")
    assumptions = ["one thread; after a restart, partitions without a file are created again by the log replay with the interval of that time"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = {"interval": r.choice([1, 2, 3, 7, 10, 10, 100, 1000, 3000000, 1 << 31, 1 << 32, 1 << 40, 1 << 62, (1 << 63) - 1])}
        cfg["_ddl"] = ["create storage s0"]
        ids = Ids(r, cfg["interval"])
        ids.n = min(ids.n, 60)
        flav = r.random()
        ops = []

        def pid():
            if ids.used and r.random() < 0.7:
                x = r.choice(ids.used) + r.choice([0, 0, -1, 1, cfg["interval"], -cfg["interval"]])
            else:
                x = ids.fresh()
            return max(0, min(I63, x))
        for _ in range(r.randint(3, 36)):
            k = r.random()
            if k < 0.42:
                ops.append(["w", [[ids.pick(), gen_key(r), "x01"] + ([1] if r.random() < .1 else []) for _ in range(r.choice([1, 1, 2, 5]))]])
            elif k < 0.62:
                a = pid()
                b = min(I63, a + r.choice([-1, 0, 1, 2, 5, 10, cfg["interval"] - 1, cfg["interval"], 3 * cfg["interval"], 1 << 40, I63]))
                if r.random() < 0.1 and b >= a:
                    ops.append(["create1", a])
                else:
                    ops.append(["create", a, max(0, b)])
            elif k < 0.68 and flav < 0.5:
                ops.append(["iv", r.choice([1, 2, 3, 7, 10, 50, 100, 1000, 1 << 20, 1 << 31, 1 << 33, 1 << 62])])
            elif k < 0.76 and flav >= 0.5:
                ops.append(["drop", pid()])
            elif k < 0.79 and flav >= 0.5:
                a = pid()
                ops.append(["dropr", a, min(I63, a + r.choice([0, 10, 1000, I63]))])
            elif k < 0.85:
                ops.append(["refresh", pid()])
            elif k < 0.89:
                ops.append(["move", pid(), r.choice(["s0", "main"])])
            elif k < 0.92:
                ops.append(r.choice([["ck"], ["drain"], ["x?", "rebalance"]]))
            else:
                ops.append([r.choice(["reopen", "newproc"])])
        return {"cfg": cfg, "ops": ops, "variant": "asan" if r.random() < 0.1 else "plain"}

    def run(self, case):
        w = Db(case["cfg"])
        w.start()
        g = Ranges()
        files = set()
        iv = [w.interval]

        def fill_id(x):
            if not g.cover(x):
                lo = x - x % iv[0]
                g.fill(lo, min(M64, lo + iv[0] - 1))

        def check(reopened=False):
            def cb(line, res):
                ps = parts_of(res)
                got = [(p["min"], p["max"]) for p in ps]
                for (a, b), (c, d) in zip(got, got[1:]):
                    if c <= b:
                        raise Fail("partitions overlap: [%d,%d] and [%d,%d]" % (a, b, c, d))
                for a, b in got:
                    if a > b:
                        raise Fail("empty partition range [%d,%d]" % (a, b))
                if reopened:
                    for p in files:
                        if p not in got:
                            raise Fail("partition [%d,%d] with a file is gone after reopen: %s" % (p + (got,)))
                    for a, b in got:
                        if (a, b) not in files and (a - a % iv[0]) != (b - b % iv[0]):
                            raise Fail("automatic partition [%d,%d] crosses an interval of %d" % (a, b, iv[0]))
                    g.p = got
                elif got != g.p:
                    raise Fail("partitions differ: unexpected %s, missing %s" % (sorted(set(got) - set(g.p))[:5], sorted(set(g.p) - set(got))[:5]))
                for id, k in w.m.d:
                    if not g.cover(id):
                        raise Fail("event %d is not in the range of any partition" % id)
                files.clear()
                files.update((p["min"], p["max"]) for p in ps if p["on_storage"] or p["on_cloud"])
                w.bump("partition_checks")
                w.bump("partitions", len(got))
            w.line("x show partitions", cb)

        def act(f):
            """model change at the time of judging, only if the line succeeded"""
            line = w.s.lines[-1]
            old = w.s.cbs[-1]

            def cb(l, res):
                if old:
                    old(l, res)
                if res.startswith("ok"):
                    f()
            w.s.cbs[-1] = cb
        check()
        for o in case["ops"]:
            k = o[0]
            if k == "w":
                w.op(o)
                act(lambda o=o: [fill_id(e[0]) for e in o[1]])
                check()
            elif k in ("create", "create1"):
                lo, hi = (o[1], o[2]) if k == "create" else (o[1], None)

                def cb(line, res, lo=lo, hi=hi):
                    if hi is None:
                        hi = lo + iv[0]
                    if hi > I63 and not res.startswith("ok"):
                        return
                    if (lo <= hi) != res.startswith("ok"):
                        raise Fail("'%s' answered %s" % (line, res))
                    if lo <= hi:
                        g.fill(lo, min(hi, M64))
                        w.bump("created")
                w.line("x create partition %d%s" % (lo, "" if hi is None else " %d" % hi), cb)
                check()
            elif k == "iv":
                w.cmd("set interval to %d" % o[1])
                act(lambda o=o: iv.__setitem__(0, o[1]))
            elif k in ("drop", "dropr"):
                w.op(o)

                def gone(o=o):
                    if o[0] == "drop":
                        g.p = [p for p in g.p if not p[0] <= o[1] <= p[1]]
                    else:
                        r = []
                        for p in g.p:
                            if p[1] < o[1]:
                                continue
                            if p[0] < o[1] or p[1] > o[2]:
                                break
                            r.append(p)
                        g.p = [p for p in g.p if p not in r]
                act(gone)
                check()
            else:
                w.op(o)
                check(reopened=k in ("reopen", "newproc"))
                if k in ("reopen", "newproc"):
                    w.scan("scan after reopen")
        w.scan("final scan")
        w.refresh_all()
        check()
        w.new_process()
        check(reopened=True)
        w.scan("scan after reopen")
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = len(g.p) >= 3 and any(o[0] in ("create", "create1", "iv", "drop", "dropr") for o in case["ops"])
        return st
