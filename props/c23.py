from hist import *

KINDS = ["fault", "fault", "fault", "fault", "busy", "busy", "badconfig", "badwal", "isfile", "junk", "baddir"]


class Check(Property):
    id = "C23"
    level = "fault_enumeration"
    quick = 4000
    thorough = 60000
    rule = ("a case is a configuration, a layout and up to 12 rounds of writes and maintenance, then attempts to open the directory: by another handle "
            "of the process, by another process, twice on one handle, while another process owns it, after the owner was closed or killed, "
            "and opens that fail (error, out of descriptors or space at any call of any class, once or persistently; damaged or foreign "
            "configuration and log files, which are restored afterwards); a refused attempt changes no file (text log excepted), leaks no descriptor "
            "and leaves the owner working; after the owner is gone and the fault is over the database opens with the content of the model; "
            "non-trivial: at least one open was refused while a content existed")
    assumptions = ["a handle which failed to open is freed before the next attempt, unless the directory was in use",
                   "an open that fails part-way may remove or complete files of interrupted operations"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 3, 10, 10, 100, 1000])
        if r.random() < 0.4:
            cfg["wal_rotate_wm"] = r.choice([1, 60, 200, 1000])
        if r.random() < 0.2:
            cfg["log_to_file"] = False
        lay = Layout(r, cfg, nmax=3, cloud=0.4, pipeline=0.1)
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts", "parts", "mod32"]))
        ids.n = min(ids.n, cfg["interval"] * 6)
        ops = []

        def attempt(owned):
            k = r.choice(["second", "second", "other", "other", "twice", "retry"]) if owned else r.choice(KINDS)
            if k == "fault":
                return ["fault", r.choice(["fail", "fail", "failall", "short"]), r.choice(["any", "any", "any", "mut", "wr", "read", "create", "sync", "unlink", "rename"]),
                        r.choice([0, 1, 2, 3, 5, 8, r.randint(0, 20), r.randint(0, 60)]), r.choice(["*", "*", "*", "wal/", "config", "-0000-", "000", "mock"]), r.choice([5, 28, 24, 23, 12, 13]),
                        r.randint(0, 100)]
            if k == "busy":
                return ["busy", r.choice(["close", "kill"]), r.choice([1, 1, 2, 3]), r.random() < .5]
            if k == "badconfig":
                return ["badconfig", r.choice(["", "{", "{}", "[]", "nonsense", '{"uuid": 5}', '{"uuid": "x", "storages": 7}', "\0\0\0\0"]).encode().hex() or "-"]
            if k == "badwal":
                return ["badwal", r.choice(["", "\0" * 40, "garbage garbage garbage garbage"]).encode().hex() or "-"]
            return [k]
        if r.random() < .3:
            ops.append(["first", attempt(False)])
        for _ in range(r.randint(2, 12)):
            for _ in range(r.choice([0, 1, 2, 3])):
                if r.random() < .7:
                    ops.append(["w", gen_batch(r, ids, r.choice([1, 3, 8]), big=0.01)])
                else:
                    o = gen_maint(r, ids, lay, drops=0.1, alters=False)
                    if o[0] not in ("reopen", "newproc"):
                        ops.append(o)
            if r.random() < .45:
                ops.append(["own", attempt(True)])
            else:
                ops.append(["shut", r.choice(["close", "close", "kill"]), [attempt(False) for _ in range(r.choice([1, 1, 2, 3]))]])
        return {"cfg": cfg, "ops": ops, "variant": "asan" if r.random() < 0.1 else "plain"}

    def run(self, case):
        w = Db(case["cfg"])
        box = {}

        def save(name, i=None):
            def cb(line, res):
                box[name] = res
            return cb

        def same(name, what):
            def cb(line, res):
                if res != box[name]:
                    raise Fail("%s: %s instead of %s" % (what, res[:60], box[name][:60]))
            return cb

        def refused(what):
            def cb(line, res):
                if not res.startswith("err ") or len(res) < 8:
                    raise Fail("%s answered: %s" % (what, res[:200]))
                w.bump("refused")
            return cb

        def owned(o):
            """attempts while this handle is open"""
            w.line("openfds", save("fds"))
            w.line("hashdir db", save("hash"))
            k = o[0]
            if k == "other":
                w.line("other open", refused("open in another process"))
            elif k == "twice":
                w.line("open", refused("second open of one handle"))
            else:
                w.s.ok("init 1")
                for _ in range(1 if k == "second" else 3):
                    w.line("open", refused("open by another handle"))
                w.s.ok("close")
                w.s.ok("use 0")
            w.line("hashdir db", same("hash", "directory changed by a refused open"))
            w.line("openfds", same("fds", "open descriptors after a refused open"))
            w.scan("scan after a refused open")
            w.write([[3, "6f", "x0a"]])

        def free(o, first=False):
            """attempts while nobody has the directory open; this process has no handle"""
            k = o[0]
            w.line("openfds", save("fds0"))
            if k == "busy":
                if first:
                    return
                w.s.ok("other hold")
                w.s.ok("init 0")
                w.line("hashdir db", save("hash"))
                for _ in range(o[2]):
                    w.line("open", refused("open while another process has the database"))
                w.line("hashdir db", same("hash", "directory changed by a refused open"))
                w.s.ok("other " + o[1])
                if o[3]:        # the same handle again
                    w.s.ok("open")
                    w.scan("scan after the owner is gone")
                w.s.ok("close")
            elif k == "fault":
                w.s.ok("init 0")
                if first:
                    sets()
                w.line("fault %s %s %d %s %d %d" % tuple(o[1:]))

                def opened(line, res):
                    w.bump("opens" if res == "ok" else "refused")
                    if res != "ok" and (not res.startswith("err ") or len(res) < 8):
                        raise Fail("open answered " + res[:100])
                    if res == "ok":
                        box["opened"] = True
                w.line("open", opened)
                w.line("fault off")

                def scan(line, res):
                    if res == "none":
                        return
                    got = parse_scan(res)
                    if got is None:
                        raise Fail("scan failed: " + res[:200])
                    w.settle(got, "scan after an open with a fault")
                w.line("scan", scan)
                w.s.ok("close")
            elif k in ("badconfig", "badwal"):
                if first:
                    return
                f = "db/config.json" if k == "badconfig" else "db/wal/00000000000000000000.wal"
                if k == "badconfig":
                    w.s.ok("copy db/config.json keep.json")
                w.s.ok("put %s %s" % (f, o[1]))
                w.line("hashdir db", save("hash"))
                w.s.ok("init 0")
                w.line("open", lambda line, res: w.bump("opens" if res == "ok" else "refused"))
                w.s.ok("close")
                if k == "badconfig":
                    w.s.ok("copy keep.json db/config.json")
                    w.s.ok("rmtree keep.json")
                else:
                    w.line("rmfile 00000000000000000000.wal 0")
            elif k == "isfile":
                w.s.ok("put plainfile 61")
                w.s.ok("init 0")
                w.line("open plainfile", refused("open of a plain file"))
                w.s.ok("close")
            elif k == "baddir":
                w.s.ok("init 0")
                w.line("open no/such/parent", refused("open below a missing directory"))
                w.s.ok("close")
            elif k == "junk":
                if first:
                    return
                w.s.ok("put db/junk.txt 6161")
                w.s.ok("put db/00000000-0000-0000-0000-000000000000/junk 6161")
                w.s.ok("put db/wal/notes.txt 6161")
                w.s.ok("init 0")
                w.s.ok("open")
                w.scan("scan with foreign files in the directory")
                w.s.ok("close")
                w.line("rmfile junk 0")
                w.line("rmfile junk 0")
                w.line("rmfile notes 0")
            w.line("openfds", same("fds0", "open descriptors after a failed open"))

        def sets():
            st = dict(DEFCFG)
            st.update({k: v for k, v in case["cfg"].items() if not k.startswith("_")})
            w.s.ok("x set uuid to '%s'" % UUID)
            for k, v in st.items():
                w.s.ok("x set %s to %s" % (k, fmt(v)))
        ops = case["ops"]
        if ops and ops[0][0] == "first":
            # the directory does not exist yet
            free(ops[0][1], True)
            ops = ops[1:]
        w.start()
        for o in ops:
            if o[0] == "own":
                owned(o[1])
            elif o[0] == "shut":
                if o[1] == "close":
                    w.s.ok("close")
                w.s.new_session(w.started)
                for l in case["cfg"].get("_pre", []):
                    w.s.ok(l)
                for a in o[2]:
                    free(a)
                w.s.ok("init 0")
                w.s.ok("open")
                w.scan("scan after failed opens")
            elif o[0] != "first":
                w.op(o)
        w.scan("final scan")
        w.write([[5, "6b", "x0102"]])
        w.refresh_all()
        w.new_process()
        w.scan("scan after reopen")
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = st.get("refused", 0) > 0 and len(w.m.d) > 0
        return st
