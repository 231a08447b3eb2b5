from hist import *

HDR = 16            # page header
EV = 14             # event header
NODE = 4200         # more than an index page of the memory table


class Check(Property):
    id = "C20"
    quick = 1300
    thorough = 30000
    rule = ("a case is a memory page size (4 KiB to 4 MiB), optionally a memory limit of 1-12 pages with refusal (or blocking, where another thread "
            "refreshes) and a page cache of any size, and up to 30 operations: events from empty to larger than a page, exactly at its edge, keys "
            "up to and beyond 255 bytes, batches of up to 3000 events over one or many partitions, refreshes, drops, restarts and kills with "
            "more in the log than the limit; a write is acknowledged and fully readable or refused without any effect; what fits and is within "
            "the limit must be accepted; after refreshing everything no page is in use and writing works; page sizes below a page header or above 2 GiB: the open is refused, or whatever is accepted is readable; non-trivial: writes were refused and "
            "accepted, or an event of at least half a page was stored")
    assumptions = ["with the blocking limit, another thread refreshes a partition (otherwise blocking is the documented behaviour)"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 3, 10, 10, 100, 1000], mm=False)
        page = r.choice([4400, 5000, 8192, 8192, 10000, 65536, 65536, 131072, 262144, 1 << 20, (1 << 20) + 7, 1 << 21] + ([1 << 22, 1 << 24] if r.random() < .1 else []))
        huge = r.random() < .05     # address space only: the pages are not touched
        if huge:
            page = r.choice([1 << 28, 1 << 29, 1 << 30, 1 << 30, (1 << 31) - 1])
        cfg["mm_page_size"] = page
        if r.random() < 0.5:
            cfg["mm_cache"] = r.choice([0, 1, page, 3 * page, 100 * page])
        limit = 0
        if r.random() < 0.55:
            limit = r.choice([1, 2, 2, 3, 4, 6, 12])
            cfg["mm_limit"] = True
            cfg["mm_limit_behaviour"] = "error"
            cfg["mm_limit_wm"] = limit * (page - HDR) - r.choice([0, 0, 1, page // 2])
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts", "parts", "parts", "mod32"]))
        ids.n = min(ids.n, cfg["interval"] * 5)
        fit = page - HDR - EV
        ops = []

        def size():
            k = r.random()
            if huge:
                return r.choice([0, 1, 100, 1000, 100000])
            if k < .3:
                return max(0, fit + r.choice([-40, -2, -1, 0, 1, 2, 16, 40, 4000]))
            if k < .5:
                return max(0, fit // 2 + r.choice([-20, -8, 0, 1, 30, -NODE, -NODE + 20]))
            if k < .7:
                return r.randint(0, fit)
            if k < .8:
                return page * r.choice([2, 3, 10])
            return r.choice([0, 1, 100, 1000])

        def event():
            k = gen_key(r) if r.random() < .8 else "r%d.%d" % (r.randint(0, 9), r.choice([254, 255, 256, 257, 511, 512, 70000]))
            n = size()
            if r.random() < .5:
                n = max(0, n - len(key_bytes(k)))
            n = min(n, 20 << 20)
            if n and n < 100000 and r.random() < .5:
                return [ids.pick(), k, "r%d.%d" % (r.randint(0, 1 << 30), n)]
            return [ids.pick(), k, "-" if n == 0 else "c%s.%d" % (bytes(r.randint(0, 255) for _ in range(r.choice([1, 2, 7, 1000]))).hex(), n)]
        for _ in range(r.randint(3, 30)):
            k = r.random()
            if k < .45:
                ops.append(["w", [event()]])
            elif k < .6:
                ops.append(["w", [event() if r.random() < .4 else [ids.pick(), gen_key(r), gen_value(r, 0)] for _ in range(r.choice([2, 3, 8]))]])
            elif k < .66:
                n = r.choice([100, 600, 1500, 3000]) if cfg["interval"] >= 100 else r.choice([50, 300])
                ops.append(["wbf", r.randint(0, 50), 1, n, r.choice([n, 513, 1024, 1025]), "-", r.choice("rc"), r.randint(0, 1 << 30), r.choice([0, 5, 40])])
            elif k < .72:
                if not huge:
                    ops.append(["fill"])
            elif k < .80:
                ops.append(["ck"])
            elif k < .84:
                ops.append(["refresh", r.choice(ids.used or [0])])
            elif k < .87:
                ops.append(["drop", min(I63, r.choice(ids.used or [0]))])
            elif k < .89:
                ops.append(["x", r.choice(['debug "memory_gc"', "show memory", 'debug "wal_create"', 'debug "wal_gc"'])])
            elif k < .93:
                ops.append(["scan"])
            else:
                ops.append([r.choice(["reopen", "newproc", "crash"])])
        c = {"cfg": cfg, "ops": ops, "limit": limit, "variant": "asan" if r.random() < 0.15 else "plain"}
        k = r.random()
        if k < 0.06:
            c = self.gen_block(r, cfg, page)
        elif k < .10:
            cfg = gen_cfg(r, [10, 1000], mm=False)
            cfg["mm_page_size"] = r.choice([0, 1, 8, 15, 16, r.randint(0, 16), 1 << 31, (1 << 31) + r.randint(0, 1 << 20), 1 << 32, (1 << 32) + 17, (1 << 32) + 8192, 1 << 40, (1 << 63) - 1, r.randint(1 << 31, (1 << 63) - 1)])
            if r.random() < .4:
                cfg["mm_limit"], cfg["mm_limit_behaviour"], cfg["mm_limit_wm"] = True, "error", r.choice([0, 100, 1 << 20])
            cfg.pop("_ddl", None)
            c = {"cfg": cfg, "ops": [], "limit": 0, "invalid": [[r.randint(0, 20), gen_key(r), r.choice([gen_value(r, 0), "r%d.%d" % (r.randint(0, 99), r.choice([3000, 50000, 1 << 20, 8 << 20]))])] for _ in range(r.randint(1, 6))],
                 "variant": r.choice(["asan", "plain"])}
        return c

    def gen_block(self, r, cfg, page):
        cfg.pop("mm_cache", None)
        cfg["interval"] = 10
        n = r.choice([1, 2, 4])
        cfg["mm_limit"] = True
        cfg["mm_limit_behaviour"] = "block"
        cfg["mm_limit_wm"] = n * (page - HDR) - 1
        if r.random() < .5:
            cfg["mm_cache"] = r.choice([0, page * 2])
        w = r.randint(1, min(3, n))
        return {"cfg": cfg, "ops": [], "block": [n, w, r.randint(1, 1 << 60), r.choice([0, 1])], "variant": "plain"}

    def fits(self, page, events):
        """refusing the batch is never right (without a limit); None: not decided"""
        if any(len(key_bytes(e[1])) > 255 for e in events):
            return False
        big = [EV + len(key_bytes(e[1])) + int(digest(e[2]).split(".")[0]) for e in events]
        if page >= NODE + HDR and all(b <= page - HDR for b in big):
            return True
        if any(b > page for b in big):
            return False
        return None

    def run(self, case):
        if case.get("block"):
            return self.run_block(case)
        if case.get("invalid"):
            return self.run_invalid(case)
        w = Db(case["cfg"])
        w.start()
        page = case["cfg"].get("mm_page_size", 1 << 21)
        limit = case["limit"] if case["cfg"].get("mm_limit") else 0
        mem = {"fresh": True}

        def refresh():
            w.cmd("checkpoint")
            w.drain(4000)

        def stale(*a):
            mem["fresh"] = False

        def write(events):
            i = len(w.s.lines)
            w.write(events, may_fail=True)
            old = w.s.cbs[i]

            def cb(line, res):
                f = self.fits(page, events)
                ok = res.startswith("ok")
                if ok and f is False:
                    raise Fail("a batch with an event which does not fit was accepted: %s" % line[:100])
                if not ok:
                    if f is True and (not limit or (mem["fresh"] and len(events) == 1 and limit >= 2)):
                        raise Fail("write refused without a reason: %s -> %s" % (line[:100], res[:200]))
                    if not res.startswith("err ") or len(res) < 8:
                        raise Fail("write answered: " + res[:100])
                    if "memory limit" in res:
                        w.bump("limit_refused")
                elif any(int(digest(e[2]).split(".")[0]) >= page // 2 for e in events):
                    w.bump("big_events")
                old(line, res)
                stale()
            w.s.cbs[i] = cb

        def wbf(o):
            # one batch after the other, each may be refused at the limit
            _, start, step, count, batch, key, kind, seed, ln = o
            evs = [list(e) for e in bulk_events(start, step, count, key, kind, seed, ln)]
            for j in range(0, len(evs), batch):
                write(evs[j:j + batch])

        def refreshed():
            def cb(line, res):
                j = jparse(res)
                if j["pages_used"] != 0:
                    raise Fail("%d memory pages are in use after everything is refreshed" % j["pages_used"])
                if j["pages_used"] + j["pages_free"] != j["pages"]:
                    raise Fail("memory pages do not add up: %s" % res)
                if limit and j["pages"] > limit + mem.get("extra", 0):
                    raise Fail("%d memory pages allocated, the limit is %d" % (j["pages"], limit))
                mem["fresh"] = True
            w.line("x show memory", cb)
        for o in case["ops"]:
            k = o[0]
            if k == "w":
                write(o[1])
                if any(len(e[1]) > 400 or "." in e[2] for e in o[1]):
                    w.scan("scan after a write of big events")
            elif k == "wbf":
                wbf(o)
            elif k == "fill":       # one event in each of many partitions: up to the limit
                iv = case["cfg"].get("interval", 1000)
                for j in range(min(8, limit + 2)):
                    write([[j * iv, "66", "x01"]])
                w.scan("scan at the limit")
            elif k == "ck":
                refresh()
                refreshed()
            elif k in ("reopen", "newproc", "crash"):
                w.op(o)
                # the recovery is not limited
                w.line("nop", lambda l, res: (stale(), mem.update(extra=1 << 30)))
                w.scan("scan after %s" % k)
            else:
                w.op(o)
                w.line("nop", stale)
        w.scan("final scan")
        refresh()
        refreshed()
        w.scan("scan after refresh")
        write([[7, "6b", "x0102"]])
        if not limit or limit >= 2:
            def must(line, res, old=w.s.cbs[-1]):
                if not res.startswith("ok") and page >= NODE + HDR:
                    raise Fail("cannot write after everything is refreshed: " + res[:200])
                old(line, res)
            w.s.cbs[-1] = must
        w.new_process()
        w.scan("scan after reopen")
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = (st.get("failed_writes", 0) > 0 and st.get("writes", 0) > 1) or st.get("big_events", 0) > 0
        return st

    def run_invalid(self, case):
        """a page size no event can be stored with: refused at the open, or every write is refused or stored whole"""
        w = Db(case["cfg"])
        opening(w.s, case["cfg"], must=False)
        st = {"open": False}

        def opened(line, res):
            st["open"] = res == "ok"
            if not st["open"] and not (res.startswith("err ") and len(res) > 8):
                raise Fail("open answered: " + res[:100])
            w.bump("opens_ok" if st["open"] else "opens_refused")
        w.s.cbs[-1] = opened
        for e in case["invalid"]:
            def cb(line, res, e=e):
                if res.startswith("ok") and not st["open"]:
                    raise Fail("a write into an environment that is not open answered: " + res[:100])
                if res.startswith("ok"):
                    w.m.put(e[0], e[1], e[2])
                elif not res.startswith("err ") and (st["open"] or res != "none"):
                    raise Fail("write answered: " + res[:100])
            w.s.add("w " + ev_text(e), cb)

        def scan(line, res):
            got = parse_scan(res)
            if st["open"] and got != w.m.list():
                raise Fail("scan with page size %d differs: %s" % (case["cfg"]["mm_page_size"], res[:200]))
        w.s.add("scan", scan)
        r = w.run(self.driver(case.get("variant", "plain")))
        r["nontrivial"] = True
        return r

    def run_block(self, case):
        n, nw, seed, pol = case["block"]
        case["cfg"]["_pre"] = ["time 1700000000000000 1", "sched %d %d 3" % (seed, pol)]
        w = Db(case["cfg"])
        w.start()
        for j in range(n):
            w.write([[j * 10, "61", "x01"]])
        ops = []
        for t in range(nw):
            ops.append("t%d w %d:62:x02" % (t, (n + t) * 10))
        for t in range(nw):
            ops.append("t%d x refresh partition %d" % (nw, t * 10))
        def done(lines, blk):
            for b in blk:
                if "ok" not in b:
                    raise Fail("blocked write: " + b[:200])
            for t in range(nw):
                w.m.put((n + t) * 10, "62", "x02")
            w.bump("blocked", nw)
        w.s.add("threads", done)
        for l in ops:
            w.s.add(l)
        w.s.add("endthreads")
        w.scan("scan after blocked writes")
        w.new_process()
        w.scan("scan after reopen")
        st = w.run(self.driver("plain"))
        st["nontrivial"] = True
        return st
