from hist import *


class Check(Property):
    id = "C22"
    quick = 2600
    thorough = 40000
    rule = ("a case is a configuration, a layout (storages, optional mock cloud and pipeline) and up to 36 operations (writes, deletes, refreshes, "
            "moves, cloud operations, drops, rebalances, renames, clean restarts, kills); after each operation the partition, storage, log and memory "
            "listings are compared with a model of written keys, with the files in the directory (names, locations and sizes) and with each "
            "other; non-trivial: five or more partition states were compared while in-memory and stored events existed at the same time")
    assumptions = ["one thread, no background workers; which partitions a rebalance or service pass refreshes is taken from the refresh counter"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 3, 10, 10, 100, 1000])
        if r.random() < 0.4:
            cfg["wal_rotate_wm"] = r.choice([1, 60, 200, 1000])
        lay = Layout(r, cfg, nmax=3, cloud=0.5, pipeline=0.2)
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts", "parts", "mod32", "edges"]))
        ids.n = min(ids.n, cfg["interval"] * 6)
        ops = []
        err = r.choice([1, 1, 3])
        for _ in range(r.randint(4, 36)):
            k = r.random()
            if k < .45:
                ops.append(["w", gen_batch(r, ids, r.choice([1, 3, 10, 40]), big=0.02, dels=0.2)])
            elif k < .50:
                ops.append(["wb", max(0, min(ids.fresh(), I63) // 2), 1, r.choice([20, 600, 1200]) if cfg["interval"] >= 100 else 10, r.choice([1, 50]), "-", r.choice("rc"), r.randint(0, 1 << 30), r.choice([0, 9])])
            elif k < .55:
                a = min(I63, r.choice(ids.used or [0]))
                ops.append(["x", "create partition %d %d" % (a, min(I63, a + r.choice([0, 3, cfg["interval"]])))])
            elif k < .58:
                ops.append(["crash"])
            elif k < .66:
                ops.append(["fref", min(I63, r.choice(ids.used or [0])), err])
            else:
                ops.append(gen_maint(r, ids, lay, drops=0.12))
        if r.random() < .04:
            ops.insert(r.randint(0, len(ops)), ["refs", min(I63, r.choice(ids.used or [0])), r.choice([20, 130, 260])])
        return {"cfg": cfg, "ops": ops, "variant": "asan" if r.random() < 0.08 else "plain"}

    @staticmethod
    def sel(o, ps):
        if o[0] == "drop":
            return [p for p in ps if p["min"] <= o[1] <= p["max"]]
        r = []
        for p in ps:
            if p["max"] < o[1]:
                continue
            if p["min"] < o[1] or p["max"] > o[2]:
                break
            r.append(p)
        return r

    def run(self, case):
        w = Db(case["cfg"])
        w.start()
        st = {}                 # partition min -> [events in the file or None, refreshes]
        mem = set()             # keys written since the refresh of their partition
        old = set()             # the same, left in memory by a refresh that failed
        box = {"lsn": 0}

        def reopened():
            def merge(line, res):
                mem.update(old)
                old.clear()
            hook(len(w.s.lines) - 1, merge)
        w.after_open = reopened

        def hook(i, f):
            old = w.s.cbs[i]

            def cb(line, res):
                if old:
                    old(line, res)
                f(line, res)
            w.s.cbs[i] = cb

        def forget(p):
            for t in (mem, old):
                for x in [x for x in t if p["min"] <= x[0] <= p["max"]]:
                    t.discard(x)

        def failed(line, res, id):
            """a refresh with an error armed: the events which it was to store stay in memory beside the ones written later"""
            p = [p for p in box["p"] if p["min"] <= id <= p["max"]]
            if not p:
                return
            p = p[0]
            if res.startswith("ok"):
                raise Fail("'%s' answered ok with an error armed" % line)
            mine = [x for x in mem if p["min"] <= x[0] <= p["max"]]
            if not any(p["min"] <= x[0] <= p["max"] for x in old):
                old.update(mine)
                mem.difference_update(mine)

        def parts(must=None):
            def cb(line, res):
                j = jparse(res)
                for p in j:
                    p["min"] &= M64
                    p["max"] &= M64
                j.sort(key=lambda p: p["min"])
                live = {}
                heap = {}
                mins = [p["min"] for p in j]

                def part_of(id):
                    i = bisect.bisect_right(mins, id) - 1
                    return j[i] if i >= 0 and j[i]["min"] <= id <= j[i]["max"] else None
                for id, k in w.m.d:
                    p = part_of(id)
                    if not p:
                        raise Fail("event %d has no partition in the listing" % id)
                    live[p["min"]] = live.get(p["min"], 0) + 1
                for x in (mem, old):
                    for id, k in x:
                        p = part_of(id)
                        if not p:
                            raise Fail("written event %d has no partition in the listing" % id)
                        heap[p["min"]] = heap.get(p["min"], 0) + 1
                for m in list(st):
                    if m not in mins:
                        del st[m]
                both = False
                for p in j:
                    s = st.setdefault(p["min"], [None, 0])
                    c = heap.get(p["min"], 0)
                    h, f = p["events_heap"], p["events"] - p["events_heap"]
                    has = p["on_storage"] or p["on_cloud"]
                    n = live.get(p["min"], 0)
                    same = h == c and has == (s[0] is not None) and f == (s[0] or 0) and p["refreshes"] == s[1]
                    fresh = h == 0 and has and f == n and p["refreshes"] > s[1]
                    if not (same or fresh) or (must is not None and p["min"] <= must <= p["max"] and not fresh):
                        raise Fail("partition [%d,%d]: events_heap %d, stored events %d, refreshes %d, file %s; in memory %d keys were written since "
                                   "the last of %d refreshes, which stored %s, live events now %d" % (
                                       p["min"], p["max"], h, f, p["refreshes"], has, c, s[1], s[0], n))
                    if fresh and not same:
                        st[p["min"]] = [n, p["refreshes"]]
                        forget(p)
                    if any(p["min"] <= x[0] <= p["max"] for x in old):
                        w.bump("failed_refresh_states")
                    if h and f:
                        both = True
                    if (p["regions"] > 0) != (f > 0) or p["regions"] > f:
                        raise Fail("partition [%d,%d] with %d stored events has %d regions" % (p["min"], p["max"], f, p["regions"]))
                    if (p["size_heap"] > 0) < (h > 0):
                        raise Fail("partition [%d,%d] with %d events in memory uses %d bytes of memory" % (p["min"], p["max"], h, p["size_heap"]))
                    if fresh and not same and p["size_heap"]:
                        raise Fail("memory is used after a refresh of [%d,%d]" % (p["min"], p["max"]))
                    if p["refreshed"] > p["created"] + (1 << 50) or p["created"] <= 0:
                        raise Fail("time of creation %d, of refresh %d" % (p["created"], p["refreshed"]))
                    w.bump("partition_states")
                if both:
                    w.bump("mixed_states")
                box["p"] = j
            w.line("x show partitions", cb)

        def storages(line, res):
            j = jparse(res)
            box["dirs"] = {n: s["config"]["uuid"] for n, s in j.items()}
            for p in box["p"]:
                if p["storage"] not in j:
                    raise Fail("partition in an unknown storage %s" % p["storage"])
            for n, s in j.items():
                ps = [p for p in box["p"] if p["storage"] == n]
                t = s["stats"]
                want = {"partitions": len(ps), "partitions_local": sum(p["on_storage"] for p in ps), "partitions_cloud": sum(p["on_cloud"] for p in ps)}
                for k in ("regions", "events", "events_heap", "size", "size_uncompressed", "size_heap"):
                    want[k] = sum(p[k] for p in ps)
                want["min"] = min([p["min"] for p in ps], default=0)
                want["max"] = max([p["max"] for p in ps], default=0)
                for k, v in want.items():
                    if t[k] & M64 != v & M64:
                        raise Fail("storage %s: %s is %d, sum over its partitions is %d" % (n, k, t[k], v))
                w.bump("storage_states")

        def files(line, res):
            loc, cl, obj, done, wal = {}, {}, {}, {}, []
            for f in res.split()[1:]:
                path, size = f.rsplit("=", 1)
                d = [x for x in path.split("/") if x not in ("pp", "pp2", ".hidden")]
                if d[1] == "wal":
                    wal.append(int(d[2].split(".")[0]))
                elif len(d) == 4 and d[2] == "mock":
                    obj[(d[1], int(d[3]))] = int(size)
                elif len(d) == 3 and d[2].isdigit():
                    loc[(d[1], int(d[2]))] = int(size)
                elif len(d) == 3 and d[2].endswith(".incomplete"):
                    pass
                elif len(d) == 3 and d[2].endswith(".complete"):
                    done[(d[1], int(d[2].split(".")[0]))] = int(size)
                elif len(d) == 3 and d[2].endswith(".cloud"):
                    cl[(d[1], int(d[2].split(".")[0]))] = int(size)
                elif len(d) > 2:
                    raise Fail("unexpected file %s" % path)
            box["wal"] = wal
            for p in box["p"]:      # left by a failed refresh
                k = (box["dirs"][p["storage"]], p["min"])
                if k in done:
                    n = done.pop(k)
                    if p["on_storage"]:
                        loc.setdefault(k, n)
            if done:
                raise Fail("files without a partition in the listing: %s" % list(done)[:3])
            for p in box["p"]:
                k = (box["dirs"][p["storage"]], p["min"])
                if (k in loc) != p["on_storage"] or (k in cl) != p["on_cloud"] or (k in cl and k not in obj):
                    raise Fail("partition [%d,%d] on_storage %s on_cloud %s, files: %s%s%s" % (p["min"], p["max"], p["on_storage"], p["on_cloud"],
                               "local " if k in loc else "", "cloud " if k in cl else "", "object" if k in obj else ""))
                for d in (loc, obj):
                    if k in d and d[k] != p["size"] and (d is loc or k in cl):
                        raise Fail("partition [%d,%d] has the size %d, its file %d" % (p["min"], p["max"], p["size"], d[k]))
                loc.pop(k, None)
                if k in cl:
                    cl.pop(k)
                obj.pop(k, None)
            if loc or cl or obj:
                raise Fail("files without a partition in the listing: %s %s %s" % (list(loc)[:3], list(cl)[:3], list(obj)[:3]))
            w.bump("file_checks")

        def wal(line, res):
            j = jparse(res)
            if j["files"] != len(box["wal"]) or j["lsn_min"] != min(box["wal"]):
                raise Fail("log listing: %d files from %d, in the directory %d from %d" % (j["files"], j["lsn_min"], len(box["wal"]), min(box["wal"])))
            if j["lsn"] < box["lsn"] or j["lsn"] < max(box["wal"]) - 1:
                raise Fail("log sequence number went from %d to %d" % (box["lsn"], j["lsn"]))
            box["lsn"] = j["lsn"]

        def memory(line, res):
            j = jparse(res)
            use = sum(p["size_heap"] for p in box["p"])
            if j["pages_used"] * j["page_size"] != use:
                raise Fail("%d memory pages are used, partitions use %d" % (j["pages_used"], use // j["page_size"]))
            if j["pages"] != j["pages_used"] + j["pages_free"]:
                raise Fail("memory pages do not add up: " + res)

        def check(must=None):
            parts(must)
            w.line("x show storages", storages)
            w.line("files db", files)
            w.line("x show wal", wal)
            w.line("x show memory", memory)
        check()
        for o in case["ops"]:
            i = len(w.s.lines)
            if o[0] == "x" and o[1].startswith("show"):
                continue
            if o[0] == "fref":
                w.cmd("set error_refresh_%d to true" % o[2])
                w.s.add("x refresh partition if exists %d" % o[1], lambda line, res, id=o[1]: failed(line, res, id))
                w.cmd("set error_refresh_%d to false" % o[2])
                check()
                continue
            if o[0] == "refs":
                for _ in range(o[2]):
                    w.cmd("refresh partition if exists %d" % o[1])

                def counted(line, res, o=o):
                    for p in jparse(res):
                        s = st.get(p["min"] & M64)
                        if s and p["min"] & M64 <= o[1] <= p["max"] & M64 and p["refreshes"] - s[1] not in (o[2], o[2] + 1):
                            raise Fail("partition [%d,%d]: %d refreshes after %d and %d more" % (p["min"], p["max"], p["refreshes"], s[1], o[2]))
                w.line("x show partitions", counted)
                check(o[1])
                continue
            w.op(o)
            if o[0] in ("w", "wb"):
                evs = o[1] if o[0] == "w" else [list(e) for e in bulk_events(o[1], o[2], o[3], o[5], o[6], o[7], o[8])]

                def wrote(line, res, evs=evs):
                    mem.update((e[0], key_bytes(e[1])) for e in evs)
                hook(i, wrote)
            if o[0] in ("drop", "dropr"):
                def dropped(line, res, o=o):
                    for p in self.sel(o, w.parts):
                        st.pop(p["min"], None)
                        forget(p)
                hook(len(w.s.lines) - 1, dropped)
            check()
        w.scan()
        w.drain(4000)
        w.cmd("checkpoint")
        w.drain(4000)
        parts()

        def constant(line, res):
            j = jparse(res)
            if j["pages_used"]:
                raise Fail("%d memory pages are used after everything is refreshed" % j["pages_used"])
        w.line("x show memory", constant)
        w.new_process()
        check()
        w.scan("scan after reopen")
        s = w.run(self.driver(case.get("variant", "plain")))
        s["nontrivial"] = s.get("mixed_states", 0) > 0 and s.get("partition_states", 0) >= 5
        return s
