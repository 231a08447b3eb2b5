from hist import *

ALL = "-0000-0000-0000-"


class Check(Property):
    id = "C12"
    level = "fault_enumeration"
    quick = 6400
    thorough = 60000
    rule = ("partition cases: storages with data checksums or encryption (or both), any compression, region size and optional mock cloud (or, without data "
            "checksums and encryption, damage to the index footer, truncation and appended bytes only) hold a generated content in files only; 1-3 damages (bit or "
            "byte flips, zeroed ranges, truncation at any length, appended bytes) are made while the database is closed or open; then open, scans, "
            "seeks, refreshes, moves and new writes must report errors or the original data, and undoing the flips brings everything back. Log "
            "cases: generated batches and drops in 1-6 log files with record checksums; after damage the database refuses to open or holds the "
            "content after some prefix of the acknowledged operations. non-trivial: the damage hit a file and at least three events were stored")
    assumptions = ["a damage is at most three altered places; it does not forge checksums", "a log file which is not the last one is not cut "
                   "exactly between two records (log records carry no chain)"]
    variants = ["plain", "asan"]

    # ---------------------------------------------------------------- generators
    def damage(self, r, where):
        pos = "f%d" % r.randint(0, (1 << 32) - 1) if r.random() < .6 else "-%d" % r.randint(1, 260) if r.random() < .7 else "%d" % r.randint(0, 200)
        k = r.random()
        f = r.randint(0, 50)
        if k < 0.55:
            return ["flip", where, f, pos, r.choice(["01", "80", "ff", "%02x" % (1 << r.randint(0, 7)), "%02x" % r.randint(1, 255)])]
        if k < 0.7:
            return ["zero", where, f, pos, r.choice([1, 2, 4, 8, 16, 64, 1000])]
        if k < 0.9:
            return ["cut", where, f, pos if r.random() < .8 else r.choice(["0", "-1", "-130", "-129", "-131"])]
        return ["append", where, f, r.choice(["x00", "xff", "r%d.%d" % (r.randint(0, 99), r.choice([1, 8, 130, 500])), "c00.%d" % r.choice([1, 130, 4096])])]

    def gen(self, r, tier):
        return self.gen_log(r) if r.random() < 0.4 else self.gen_part(r)

    def gen_part(self, r):
        cfg = gen_cfg(r, [3, 10, 10, 100, 1000])
        crc = r.random() < 0.7
        auth = not crc and r.random() < 0.6      # no checksums, but everything is encrypted (and authenticated)
        cloud = r.random() < 0.3
        cfg["_ddl"] = []
        if cloud:
            cfg["_ddl"].append("create cloud cl (type 'mock')")
        names = ["main"]

        def opts():
            o = ["crc %s" % ("true" if crc else "false")]
            if r.random() < .8:
                o.append("region_size %d" % r.choice([1, 60, 200, 1000, 4096]))
            o.append("compression '%s'" % r.choice(["", "", "lz4", "zstd"]))
            if auth or r.random() < .3:
                o.append("encryption 'aes'")
            return o
        cfg["_ddl"].append("alter storage main set (%s)" % ", ".join(opts()))
        for i in range(r.choice([0, 1, 2])):
            o = opts() + ["uuid '0000aaaa-0000-0000-0000-%012d'" % i]
            if cloud:
                o.append("cloud 'cl'")
                if r.random() < .5:
                    o.append("cloud_drop_local false")
            cfg["_ddl"].append("create storage s%d (%s)" % (i, ", ".join(o)))
            names.append("s%d" % i)
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts"]))
        ids.n = min(ids.n, cfg["interval"] * 5)
        ops = []
        for _ in range(r.randint(1, 6)):
            k = r.random()
            if k < .6:
                ops.append(["w", gen_batch(r, ids, r.choice([2, 6, 20]), big=0.02)])
            elif k < .7:
                ops.append(["wb", ids.fresh(), 1, r.choice([20, 200]) if cfg["interval"] >= 100 else 8, 10, "-", r.choice("rc"), r.randint(0, 1 << 30), r.choice([0, 7, 40])])
            else:
                ops.append(["ck"])
        for n in names[1:]:
            for _ in range(r.choice([1, 2])):
                ops.append(["move", r.choice(ids.used or [0]), n])
        dmg = [self.damage(r, ALL) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        raw = not any("'lz4'" in d or "'zstd'" in d or "encryption" in d for d in cfg["_ddl"])
        for d in dmg:
            if d[0] in ("flip", "zero"):
                if not crc and not auth:         # the footer and the last region of the index
                    d[3] = "-%d" % r.randint(1, 130 + (52 if raw else 0))
                elif r.random() < .35:
                    d[3] = "-%d" % r.randint(100, 130 + 52 * r.choice([1, 2, 4, 10]))
        after = []
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            k = r.random()
            if k < .3:
                after.append(["w", [[ids.pick(), gen_key(r), gen_value(r, 0)]]])
            elif k < .5:
                after.append(["x?", "refresh partition if exists %d" % r.choice(ids.used or [0])])
            elif k < .8:
                after.append(["x?", "move partition if exists %d into %s" % (r.choice(ids.used or [0]), r.choice(names))])
            elif k < .9:
                after.append(["x?", "download partition if exists %d if cloud" % r.choice(ids.used or [0])])
            else:
                after.append(["x?", "checkpoint"])
        return {"kind": "part", "cfg": cfg, "ops": ops, "dmg": dmg, "after": after, "live": r.random() < .25,
                "seeks": [[ids.pick(), gen_key(r)] for _ in range(r.choice([0, 1, 3]))] + [[r.choice(ids.used or [0]), "-", 3] for _ in range(r.choice([0, 10, 25]))], "variant": "asan" if r.random() < .3 else "plain"}

    def gen_log(self, r):
        cfg = gen_cfg(r, [3, 10, 10, 100, 1000])
        cfg["wal_crc"] = True
        cfg["wal_rotate_wm"] = r.choice([1 << 20, 1 << 20, 60, 200, 1000])
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts"]))
        ids.n = min(ids.n, cfg["interval"] * 5)
        ops = []
        for _ in range(r.randint(2, 16)):
            k = r.random()
            if k < .8:
                ops.append(["w", gen_batch(r, ids, r.choice([1, 3, 10]), big=0.01)])
            elif k < .9:
                ops.append(["drop", r.choice(ids.used or [0])])
            else:
                ops.append(["x", 'debug "wal_create"'])
        dmg = []
        for _ in range(r.choice([1, 1, 2])):
            d = self.damage(r, "wal/")
            if d[0] == "cut":
                d[2] = "-1"
                if r.random() < .3:
                    d[2] = r.randint(0, 20)
                    d[3] = "-%d" % r.randint(1, 8)
            elif d[0] == "append" and r.random() < .7:
                d[2] = "-1"
            dmg.append(d)
        if sum(d[0] == "cut" for d in dmg) > 1:
            dmg = dmg[:1]
        return {"kind": "log", "cfg": cfg, "ops": ops, "dmg": dmg, "variant": "asan" if r.random() < .3 else "plain"}

    # ---------------------------------------------------------------- execution
    def run(self, case):
        w = self.run_part(case) if case["kind"] == "part" else self.run_log(case)
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = st.get("damaged", 0) > 0 and st.get("events", 0) >= 3
        return st

    def damages(self, w, dmg):
        def cb(line, res):
            if res.startswith("ok"):
                w.bump("damaged")
            elif res != "none":
                raise Fail(res)
        for d in dmg:
            w.line(" ".join(str(x) for x in d), cb)

    def run_part(self, case):
        w = Db(case["cfg"])
        w.start()
        for o in case["ops"]:
            w.op(o)
        w.refresh_all()
        w.scan()
        w.cmd('debug "wal_gc"')
        state = {"open": True, "bad": False}

        def read(line, want, strict=False):
            def cb(line, res):
                if not state["open"]:
                    assert res == "none", res
                    return
                m = re.match(r"err (.*) after (\d+)((?: \S+)*)$", res, re.S)
                full = want()
                if m and not strict:
                    w.bump("read_errors")
                    got = m.group(3).split()
                    if got != full[:len(got)]:
                        raise Fail("'%s' returned unwritten events before the error '%s': %s" % (line, m.group(1)[:100], diff(got, full[:len(got)])))
                    return
                if res.startswith("err") and not strict:
                    w.bump("read_errors")
                    return
                got = parse_scan(res)
                if got is None:
                    raise Fail("'%s' failed: %s" % (line, res[:300]))
                if got != full:
                    raise Fail("'%s' of damaged files differs: %s" % (line, diff(got, full)))
                w.bump("reads_equal")
            w.line(line, cb)

        def opened(line, res):
            state["open"] = res == "ok"
            w.bump("opens" if state["open"] else "open_errors")

        def reads():
            read("scan", lambda: w.m.list())
            for id, key, *lim in case["seeks"]:
                n = lim[0] if lim else None
                read("seek %d %s %d" % (id, key, n or 0), lambda id=id, key=key, n=n: w.m.list((id, key_bytes(key)))[:n])

        def writes(o):
            def cb(line, res):
                if not state["open"]:
                    return
                if res.startswith("ok"):
                    w.m.apply(o[1])
            w.line("w " + " ".join(ev_text(e) for e in o[1]), cb)

        if case["live"]:
            self.damages(w, case["dmg"])
            reads()
        w.s.ok("close")
        if not case["live"]:
            self.damages(w, case["dmg"])
        for rnd in range(2):
            w.s.new_session(w.started)
            w.s.ok("init")
            w.line("open", opened)
            reads()
            if rnd == 0:
                for o in case["after"]:
                    if o[0] == "w":
                        writes(o)
                    else:
                        w.line("x " + o[1])
                        if "checkpoint" in o[1]:
                            w.line("until 20 x service")
                    read("scan", lambda: w.m.list())
            w.s.ok("close")
        if all(d[0] == "flip" for d in case["dmg"]) and not case["after"] and not case["live"]:
            # the damage undone, everything is back
            self.damages(w, case["dmg"])
            w.s.new_session(w.started)
            opening(w.s, w.cfg, first=False)
            w.line("nop", lambda line, res: state.update(open=True))
            read("scan", lambda: w.m.list(), True)
            w.bump("undone")
        return w

    def run_log(self, case):
        w = Db(case["cfg"])
        w.start()
        states = []
        keep = lambda line, res: states.append(w.m.copy())
        w.line("nop", keep)
        for o in case["ops"]:
            w.op(o)
            w.line("nop", keep)
        w.s.ok("close")
        self.damages(w, case["dmg"])
        w.s.new_session(w.started)
        state = {"open": False}

        def opened(line, res):
            state["open"] = res == "ok"
            w.bump("opens" if res == "ok" else "open_errors")
            w.alts = list(states)

        def scan(line, res):
            if not state["open"]:
                return
            got = parse_scan(res)
            if got is None:
                raise Fail("scan failed: " + res[:200])
            w.settle(got, "scan of a damaged log")
            w.bump("prefix")
            if got != states[-1].list():
                w.bump("shorter_prefix")
        w.s.ok("init")
        w.line("open", opened)
        w.line("scan", scan)

        def write(line, res):
            if not state["open"]:
                return
            if not res.startswith("ok"):
                raise Fail("write refused after recovery: " + res[:200])
            w.m.apply([[2, "6b", "x01"]])
        w.line("w 2:6b:x01", write)
        w.s.ok("close")
        w.s.new_session(w.started)
        w.s.ok("init")
        was = {}

        def opened2(line, res):
            if state["open"] and res != "ok":
                raise Fail("the database opened, and after a clean close does not: " + res[:300])
        w.line("open", opened2)
        w.line("scan", scan)
        return w

    def shrink_steps(self, case):
        for k in ("dmg", "after", "seeks"):
            for i in range(len(case.get(k, []))):
                if k != "dmg" or len(case[k]) > 1:
                    yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
        yield from generic_shrinks(case)
