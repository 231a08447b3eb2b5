from hist import *

INF = 1 << 62
DEL = None


class Item:
    """one effect of a write, delete or drop on a key"""
    __slots__ = ("b", "e", "val", "batch", "maybe")

    def __init__(self, b, e, val, batch, maybe=False):
        self.b, self.e, self.val, self.batch, self.maybe = b, e, val, batch, maybe


class History:
    """all writes of a case with the logical times of their invocation and completion"""

    def __init__(self, interval):
        self.iv = interval
        self.keys = {}          # (id,key) -> [Item]
        self.drops = []         # (lo, hi, b, e, maybe, batch)
        self.by_val = {}        # ((id,key), val) -> [Item]
        self.n = 0

    def part(self, id):
        return id // self.iv

    def write(self, events, b, e, maybe=False):
        self.n += 1
        last = {}
        for ev in events:
            k = (ev[0], key_bytes(ev[1]))
            last[k] = DEL if len(ev) > 3 and ev[3] else digest(ev[2])
        for k, v in last.items():
            it = Item(b, e, v, (self.n, self.part(k[0])), maybe)
            self.keys.setdefault(k, []).append(it)

    def drop(self, lo, hi, b, e, maybe=False):
        self.n += 1
        self.drops.append((lo, hi, Item(b, e, DEL, (self.n, None), maybe)))

    def items(self, k):
        return self.keys.get(k, []) + [it for lo, hi, it in self.drops if lo <= k[0] <= hi]

    def overwritten(self, it, items, rs):
        """is the item certainly replaced by another one for a reader that starts at rs"""
        for o in items:
            if o is not it and not o.maybe and it.e < o.b and o.e < rs:
                return o
        return None

    def check(self, obs, absent, rs, what, ends=None):
        """obs: {(id,key): (digest, time of the read)}; absent: {(id,key): time}; all of one reader"""
        # which item each observed value is
        shown = {}
        for k, (v, t) in obs.items():
            its = self.items(k)
            cand = [i for i in its if i.val == v]
            if not cand:
                raise Fail("%s: %s was never written" % (what, show(k, v)))
            cand = [i for i in cand if i.b < t]
            if not cand:
                raise Fail("%s: %s was written later" % (what, show(k, v)))
            shown[k] = cand
        # a reader sees one state of each partition: all that precedes a visible batch is visible
        eff = {}
        for k, cand in shown.items():
            if len(cand) == 1 and cand[0].batch[0] > 0:
                p = self.part(k[0])
                eff[p] = max(eff.get(p, rs), cand[0].b)
        for k, cand in shown.items():
            its = self.items(k)
            lim = eff.get(self.part(k[0]), rs)
            bad = None
            for c in cand:
                bad = self.overwritten(c, its, lim)
                if bad is None:
                    break
            else:
                raise Fail("%s: stale %s, replaced by %s at %d..%d; reader from %d%s" %
                           (what, show(k, obs[k][0]), bad.val or "a delete", bad.b, bad.e, rs,
                            " (its partition shows a batch started at %d)" % lim if lim > rs else ""))
        for k, t in absent.items():
            its = self.items(k)
            lim = eff.get(self.part(k[0]), rs)
            puts = [i for i in its if i.val is not DEL and not i.maybe and i.e < lim]
            if not puts:
                continue
            dels = [i for i in its if i.val is DEL and i.b < t]
            for p in puts:
                # some delete may follow this put
                if not any(d.e > p.b for d in dels):
                    raise Fail("%s: lost %s written at %d..%d; reader from %d%s" %
                               (what, show(k, p.val), p.b, p.e, rs, " (its partition shows a batch started at %d)" % lim if lim > rs else ""))
        # batches are atomic inside a partition
        vis = {}
        for k, cand in shown.items():
            if len(cand) == 1:
                vis.setdefault(cand[0].batch, cand[0])
        edges = {}
        for k, its in self.keys.items():
            if k not in shown and k not in absent:
                continue
            for it in its:
                if it.batch not in vis:
                    continue
                if k in shown:
                    c = shown[k]
                    if any(x is it for x in c):
                        continue
                    if len(c) > 1:
                        continue
                    # the batch is visible, its key shows another one, which must follow it
                    edges.setdefault(it.batch, {})[c[0].batch] = k
                    if c[0].e < it.b:
                        raise Fail("%s: batch of %d..%d is partly visible: %s shows an older value" % (what, it.b, it.e, show(k, obs[k][0])))
                elif it.val is not DEL:
                    t = absent[k]
                    if not any(d.val is DEL and d.b < t and d.e > it.b for d in self.items(k)):
                        raise Fail("%s: batch of %d..%d is partly visible: %s is missing" % (what, it.b, it.e, show(k, it.val)))
        # the order of the visible batches has no cycle
        state = {}

        def visit(n):
            state[n] = 1
            for m in edges.get(n, {}):
                if state.get(m) == 1:
                    raise Fail("%s: batches are mixed in partition %s (two batches each partly replace the other)" % (what, n[1]))
                if m not in state:
                    visit(m)
            state[n] = 2
        for n in list(edges):
            if n not in state:
                visit(n)


def drop_range(iv, o):
    if o[0] == "drop":
        lo = o[1] - o[1] % iv
        return lo, lo + iv - 1
    return o[1], o[2]


class Check(Property):
    id = "C17"
    quick = 8000
    thorough = 120000
    level = "exploration"
    rule = ("a case is a database with content, then 1-2 blocks of 2-4 threads with up to 8 operations each (uniquely tagged batches and deletes over "
            "one or several partitions, full scans, seeks, cursors read step by step, refresh, move, drop, upload, download, rebalance, checkpoint, service, "
            "settings, show) next to 0-2 worker threads, run under a seeded scheduler which switches at every lock, wait and file operation (random, sticky and "
            "priority-based), or as real threads under ThreadSanitizer, some with the process killed at a file operation inside of the block; every read is "
            "checked against the logical times of all writes (nothing lost, stale, invented or out of order; batches whole inside a partition), then the final "
            "content, and the same content after a restart; deadlocks, endless loops, data races and crashes are violations; non-trivial: a read or maintenance "
            "operation overlapped with a write")
    assumptions = ["a thread which holds a cursor only reads it", "plain memory accesses are interleaved only in the real-thread cases"]
    variants = ["plain", "tsan", "asan"]
    nondet_ok = True

    def gen(self, r, tier):
        cfg = {"interval": r.choice([1, 3, 10, 10, 100, 1000]), "workers": r.choice([0, 1, 1, 2]), "workers_upload": r.choice([0, 0, 1]), "_ddl": []}
        if r.random() < .25:
            cfg["wal_sync_on_write"] = True
        if r.random() < .6:
            cfg["wal_rotate_wm"] = r.choice([1, 60, 200, 1000])
        k = r.random()
        variant = "tsan" if k < .025 else "asan" if k < .06 else "plain"
        variant = os.environ.get("VERIF_VARIANT", variant)
        if variant != "tsan":
            cfg["_pre"] = ["time 1700000000000000 1", "sched %d %d %d" % (r.randint(1, 1 << 40), r.choice([0, 0, 1, 2, 2]), r.choice([1, 3, 3, 10]))]
        lay = Layout(r, cfg, nmax=2, cloud=.3, pipeline=.25)
        if r.random() < .7:
            cfg["_ddl"].append("alter storage main set (refresh_wm %d%s)" % (r.choice([1, 50, 50, 300]), r.choice(["", ", region_size 60", ", compression 'zstd'"])))
        ids = Ids(r, cfg["interval"], r.choice(["dense", "dense", "parts", "parts", "gaps"]))
        ids.n = min(ids.n, cfg["interval"] * r.choice([1, 2, 5]), 60)
        init = []
        for _ in range(r.randint(0, 5)):
            k = r.random()
            if k < .7:
                init.append(["w", gen_batch(r, ids, 6, big=.01)])
            else:
                init.append(gen_maint(r, ids, lay, alters=False))
        init = [o for o in init if o[0] not in ("reopen", "newproc", "rebalance")]
        blocks = []
        drops = r.choice([0, 0, .15, .4])
        for _ in range(r.choice([1, 1, 1, 2])):
            if r.random() < .08:        # files of the log are replaced and collected next to writes
                blocks.append(self.gen_log(r, cfg, ids))
                continue
            if r.random() < (.35 if variant == "tsan" else .02):
                blocks.append(self.gen_ddl(r, lay))
                continue
            nt = r.choice([2, 2, 3, 3, 4])
            kinds = r.choice([("w", "r", "m"), ("w", "w", "r"), ("w", "m"), ("r", "m", "w", "mix"), ("mix",), ("m", "m", "w", "r"), ("w", "r")])
            blocks.append([self.gen_thread(r, ids, lay, kinds[t % len(kinds)], drops) for t in range(nt)])
        case = {"cfg": cfg, "init": init, "blocks": blocks, "variant": variant}
        if variant != "tsan" and r.random() < .25:
            case["fault"] = ["kill", r.choice(["mut", "mut", "wr", "unlink", "rename", "create"]), r.choice([0, 1, 2, 4, r.randint(0, 30)])]
        if variant == "tsan":
            case["rep"] = r.choice([1, 3])
        return case

    def gen_ddl(self, r, lay):
        ths = []
        for t in range(r.choice([2, 2, 3])):
            ops = []
            for i in range(r.randint(3, 8)):
                n = "tmp%d" % r.randint(0, 2)
                ops.append(["x", r.choice([
                    "set compression to '%s'" % r.choice(["", "lz4", "zstd"]), "set compression to '%s'" % r.choice(["", "lz4", "zstd"]),
                    "set compression_level to %d" % r.choice([0, 1, 3]), "set wal_rotate_wm to %d" % r.choice([1, 100, 1 << 20]),
                    "create storage if not exists %s" % n, "create storage if not exists %s (sync false, encryption 'aes')" % n, "drop storage if exists %s" % n,
                    "create cloud if not exists %s (type 'mock', url 'u')" % n, "drop cloud if exists %s" % n, "alter cloud if exists %s set (url 'v%d')" % (n, i),
                    "alter storage if exists %s set (region_size %d)" % (n, r.choice([1, 100])), "show storages", "show clouds", "show all", "show pipeline"])])
            ths.append(ops)
        return ths

    def gen_log(self, r, cfg, ids):
        iv = cfg["interval"]
        if r.random() < .8:
            cfg["wal_rotate_wm"] = r.choice([1, 1, 60])
        base = r.randint(0, 3) * iv
        ths = []
        for t in range(r.choice([2, 2, 3])):
            a = base + t * iv
            ops = []
            for _ in range(r.randint(1, 3)):
                if t == 0 or r.random() < .3:
                    ops += [["w", [[a, gen_key(r), "x00"]]], ["refresh", a], ["x", r.choice(["service", "service", "checkpoint"])]]
                    if r.random() < .3:
                        ops.append(["x", "service"])
                else:
                    ops.append(["w", [[a + r.randint(0, iv - 1), gen_key(r), "x00"] for _ in range(r.choice([1, 1, 3]))]])
            ths.append(ops)
        return ths

    def gen_thread(self, r, ids, lay, kind, drops):
        ops = []
        for _ in range(r.randint(2, 8)):
            k = r.random()
            w, rd = {"w": (.85, .95), "r": (.05, .9), "m": (.15, .25), "mix": (.4, .65)}[kind]
            if k < w:
                ops.append(["w", gen_batch(r, ids, r.choice([1, 2, 4, 8]), big=.005)])
            elif k < rd:
                j = r.random()
                if j < .45:
                    ops.append(["scan"])
                elif j < .6:
                    ops.append(["seek", ids.pick(), gen_key(r), r.choice([0, 1, 3])])
                elif j < .95:
                    o = ["cur", r.choice([1, 3, 8, 30])]
                    if r.random() < .5:
                        o += [ids.pick(), gen_key(r)]
                    ops.append(o)
                else:
                    ops.append(["x", r.choice(["show partitions debug", "show storages", "show wal", "show memory", "show all", "show pipeline"])])
            else:
                j = r.random()
                if j < .12:
                    ops.append(["x", r.choice(["service", "service", "checkpoint", "rebalance"])])
                elif j < .16:
                    ops.append(["x", r.choice(["set wal_rotate_wm to %d" % r.choice([1, 100, 1 << 20]), "set compression to '%s'" % r.choice(["", "lz4", "zstd"]),
                                               "create storage if not exists tmp", "drop storage if exists tmp",
                                               "alter storage main set (region_size %d)" % r.choice([1, 100, 1 << 16])])])
                else:
                    o = gen_maint(r, ids, lay, drops=drops, alters=False)
                    if o[0] in ("reopen", "newproc"):
                        o = ["x", "service"]
                    if o[0] in ("rebalance", "drain", "ck"):
                        o = ["x", {"rebalance": "rebalance", "drain": "service", "ck": "checkpoint"}[o[0]]]
                    ops.append(o)
        return ops

    # --- script
    def run(self, case):
        st = {}
        for _ in range(case.get("rep", 1)):
            for k, v in self.run1(case).items():
                st[k] = st.get(k, 0) + v
        return st

    def run1(self, case):
        cfg = case["cfg"]
        w = Db(cfg)
        s = w.s
        h = History(cfg["interval"])
        st = {"clock": 0, "tag": 0, "overlap": 0, "kill": False}
        tsan = case["variant"] == "tsan"

        def tagged(ev):
            # every value written is unique: it names its write
            st["tag"] += 1
            r = []
            for e in ev:
                e = list(e)
                if not (len(e) > 3 and e[3]):
                    v = e[2]
                    if v[0] in "rc" and "." in v:
                        ln = int(v.split(".")[1])
                        e[2] = "r%d.%d" % (st["tag"] << 20 | len(r), max(5, ln))
                    else:
                        e[2] = "x%06x%02x" % (st["tag"], len(r) & 255)
                r.append(e)
            # a key once in a batch
            return [list(x) for x in {(e[0], key_bytes(e[1])): e for e in r}.values()]

        def lines(o):
            """script lines of one operation of a thread"""
            k = o[0]
            if k == "w":
                ev = tagged(o[1])
                return [("w " + " ".join(ev_text(e) for e in ev), ("w", ev))]
            if k == "scan":
                return [("scan", ("scan", None))]
            if k == "seek":
                return [("seek %d %s %d" % (o[1], o[2], o[3]), ("seek", o))]
            if k == "cur":
                a = " %d %s" % (o[2], o[3]) if len(o) > 2 else ""
                r = [("c 0 open" + a, ("copen", o))]
                for _ in range(o[1]):
                    r += [("c 0 read", ("cread", None)), ("c 0 next", ("cnext", None))]
                return r + [("c 0 close", ("cclose", None))]
            if k in ("drop", "dropr"):
                c = "drop partition if exists %d" % o[1] if k == "drop" else "drop partitions between %d and %d" % (o[1], o[2])
                return [("x " + c, ("drop", o))]
            # maintenance: render through a Db, to share the vocabulary
            t = Db(cfg)
            t.soft = True       # no drop of one of the copies: whether it is the only one depends on the other threads
            t.op(o)
            return [(l, ("x", l)) for l in t.s.lines]

        def block(ths):
            prog = {}
            w.line("threads", None)
            pos = len(s.cbs) - 1
            for t, ops in enumerate(ths):
                prog[t] = [l for o in ops for l in lines(o)]
                for l, _ in prog[t]:
                    w.line("t%d %s" % (t, l))
            w.line("endthreads")

            def cb(ops, blk):
                self.judge_block(h, st, prog, blk, w)
            s.cbs[pos] = cb
        def tolerant(line, res):
            # the workers run next to these operations
            if not res.startswith("ok") and "must be dropped from the cloud first" not in res and not line.startswith("x upload"):
                raise Fail("'%s' answered: %s" % (line, res[:300]))
        w.start()
        for o in case["init"]:
            if o[0] == "w":
                ev = tagged(o[1])

                def cb(line, res, ev=ev):
                    if not res.startswith("ok"):
                        raise Fail("write refused: " + res[:200])
                    st["clock"] += 2
                    h.write(ev, -INF + st["clock"], -INF + st["clock"] + 1)
                w.line("w " + " ".join(ev_text(e) for e in ev), cb)
            else:
                for l, _ in lines(o):
                    w.line(l, tolerant)
        f = case.get("fault")
        for i, b in enumerate(case["blocks"]):
            if f and i == len(case["blocks"]) - 1:
                w.line("fault %s %s %d" % tuple(f))
            block(b)
        if f:
            w.line("fault off")

        def ended(crashed, pos):
            st["kill"] = crashed

        def final(what):
            def cb(line, res):
                got = parse_scan(res)
                if got is None:
                    raise Fail("%s failed: %s" % (what, res[:300]))
                self.judge_scan(h, got, INF, INF, what, None)
                if "final" in st and st["final"] != got:
                    raise Fail("%s differs from the content before: %s" % (what, diff(got, st["final"])))
                st["final"] = got
            w.line("scan", cb)
        if f:
            w.line("crash")
            s.new_session(ended)
            opening(s, cfg, first=False)
            final("scan after the process was killed")
        else:
            w.line("idle")
            final("final scan")
        w.drain()
        w.line("idle")
        final("scan after maintenance")
        s.ok("close")
        s.new_session()
        opening(s, cfg, first=False)
        final("scan after reopen")
        w.line("steps")
        c = w.run(self.driver(case["variant"]), timeout=60)
        c["overlaps"] = st["overlap"]
        c["kills_in_block"] = int(st["kill"])
        c["real_threads"] = int(tsan)
        return c

    def nontrivial(self, case, stats):
        return stats.get("overlaps", 0) > 0

    # --- judging
    def judge_block(self, h, st, prog, blk, w):
        ans = {t: [] for t in prog}
        for l in blk:
            th, b, e, res = l.split(" ", 3)
            ans[int(th[1:])].append((int(b) + st["clock"], int(e) + st["clock"], res))
        writes = []
        killed = any(len(ans[t]) < len(prog[t]) for t in prog)
        spans = []
        for t in prog:
            last = st["clock"]
            for i, (line, what) in enumerate(prog[t]):
                if i < len(ans[t]):
                    b, e, res = ans[t][i]
                    last = e
                    maybe = False
                elif i == len(ans[t]):
                    b, e, res, maybe = last, INF - 1, None, True
                else:
                    break
                k = what[0]
                if res is not None and not res.startswith("ok") and k in ("w", "drop"):
                    raise Fail("'%s' of thread %d answered: %s" % (line[:120], t, res[:300]))
                if k == "w":
                    h.write(what[1], b, e, maybe)
                    spans.append((b, e, 1))
                elif k == "drop":
                    lo, hi = drop_range(h.iv, what[1])
                    h.drop(lo, hi, b, e, maybe)
                    spans.append((b, e, 1))
                else:
                    spans.append((b, e, 0))
        end = max([e for t in ans for _, e, _ in ans[t]] + [st["clock"]])
        for b, e, k in spans:
            if k:
                st["overlap"] += sum(1 for b2, e2, k2 in spans if not k2 and b < e2 and b2 < e)
        # the readers
        for t in prog:
            cur = None
            for (line, what), (b, e, res) in zip(prog[t], ans[t]):
                k = what[0]
                name = "'%s' of thread %d" % (line, t)
                if k in ("scan", "seek"):
                    got = parse_scan(res)
                    if got is None:
                        raise Fail("%s answered: %s" % (name, res[:300]))
                    self.judge_scan(h, got, b, e, name, what[1])
                    w.bump("reads_judged")
                elif k == "copen":
                    if res != "ok":
                        raise Fail("%s answered: %s" % (name, res[:300]))
                    cur = [b, [], what[1], False]
                elif k == "cread":
                    if res == "ok end":
                        cur[3] = e
                    elif res.startswith("ok "):
                        if cur[3]:
                            raise Fail("%s answered an event after the end" % name)
                        cur[1].append((parse_event(res[3:]), e))
                    else:
                        raise Fail("%s answered: %s" % (name, res[:300]))
                elif k == "cnext" and not res.startswith("ok"):
                    raise Fail("%s answered: %s" % (name, res[:300]))
                elif k == "cclose":
                    self.judge_cursor(h, cur, name)
                    w.bump("cursors_judged")
                elif k == "x" and not res.startswith("ok") and not line.startswith("x upload"):
                    if "must be dropped from the cloud first" in res:
                        w.bump("refused")       # uploaded meanwhile by another thread
                        continue
                    raise Fail("%s answered: %s" % (name, res[:300]))
            if cur and not any(x[1][0] == "cclose" for x in prog[t][:len(ans[t])]):
                self.judge_cursor(h, cur, "cursor of thread %d" % t)
        st["clock"] = end + 10
        w.bump("threads", len(prog))

    def judge_scan(self, h, got, b, e, name, seek):
        evs = [parse_event(x) for x in got]
        ks = [k for k, _ in evs]
        for x, y in zip(ks, ks[1:]):
            if not x < y:
                raise Fail("%s: %d:%s after %d:%s" % (name, y[0], y[1].hex(), x[0], x[1].hex()))
        lo = None
        hi = None
        if seek:
            lo = (seek[1], key_bytes(seek[2]))
            if ks and ks[0] < lo:
                raise Fail("%s: starts at %d:%s, before the given key" % (name, ks[0][0], ks[0][1].hex()))
            if seek[3] and len(ks) >= seek[3]:
                hi = ks[-1]
        obs = {k: (v, e) for k, v in evs}
        absent = {k: e for k in h.keys if k not in obs and (lo is None or k >= lo) and (hi is None or k <= hi)}
        h.check(obs, absent, b, name)

    def judge_cursor(self, h, cur, name):
        b, reads, o, end = cur
        ks = [k for (k, _), _ in reads]
        for x, y in zip(ks, ks[1:]):
            if not x < y:
                raise Fail("%s: %d:%s after %d:%s" % (name, y[0], y[1].hex(), x[0], x[1].hex()))
        lo = (o[2], key_bytes(o[3])) if len(o) > 2 else None
        if lo and ks and ks[0] < lo:
            raise Fail("%s: starts at %d:%s, before the given key" % (name, ks[0][0], ks[0][1].hex()))
        obs = {k: (v, t) for (k, v), t in reads}
        absent = {}
        for k in h.keys:
            if k in obs or (lo and k < lo):
                continue
            for kk, t in zip(ks, [t for _, t in reads]):
                if k < kk:
                    absent[k] = t
                    break
            else:
                if end:
                    absent[k] = end
        h.check(obs, absent, b, name)

    def shrink_steps(self, case):
        bl = case["blocks"]
        for i in range(len(bl)):
            if len(bl) > 1:
                yield dict(case, blocks=bl[:i] + bl[i + 1:])
            for t in range(len(bl[i])):
                if len(bl[i]) > 1:
                    yield dict(case, blocks=bl[:i] + [bl[i][:t] + bl[i][t + 1:]] + bl[i + 1:])
        for sub in generic_shrinks({"ops": case["init"]}):
            yield dict(case, init=sub["ops"])
        for i in range(len(bl)):
            for t in range(len(bl[i])):
                for sub in generic_shrinks({"ops": bl[i][t]}):
                    nb = bl[i][:t] + [sub["ops"]] + bl[i][t + 1:]
                    yield dict(case, blocks=bl[:i] + [nb] + bl[i + 1:])
        for c in generic_shrinks({"cfg": {k: v for k, v in case["cfg"].items() if k != "_pre"}}):
            yield dict(case, cfg=dict(c["cfg"], **({"_pre": case["cfg"]["_pre"]} if "_pre" in case["cfg"] else {})))
        d = case["cfg"].get("_ddl", [])
        for i in range(len(d)):
            yield dict(case, cfg=dict(case["cfg"], _ddl=d[:i] + d[i + 1:]))
        if case.get("fault"):
            yield {k: v for k, v in case.items() if k != "fault"}
