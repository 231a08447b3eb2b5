from hist import *
import c14

KEEP = ("uuid", "path", "cloud", "cloud_drop_local", "sync", "crc", "compression", "compression_level", "encryption", "region_size", "refresh_wm")


class Check(Property):
    id = "C26"
    level = "fault_enumeration"
    quick = 6000
    thorough = 80000
    rule = ("a case is a configuration, a layout and 1-5 lives of the handle: any calls before the open (batches, empty batches, cursors, every command of "
            "the language, settings), opens that fail (no such parent, a plain file, a directory in use, a damaged configuration, an error at any call), any "
            "calls after the failed open, the open, second opens of the open handle, empty batches, reads past the end of cursors, operations, close; "
            "calls that need an open environment answer an error and change no file; after the open the settings are those given, the definitions and "
            "the content those of the previous life, as if the refused calls were never made; non-trivial: three or more calls were refused and the "
            "environment was opened afterwards")
    assumptions = ["a handle whose open failed is freed, unless the directory was in use"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 3, 10, 100, 1000])
        lay = Layout(r, cfg, nmax=2, cloud=.4, pipeline=.2)
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts", "mod32"]))
        ids.n = min(ids.n, cfg["interval"] * 6)
        g = c14.Gram(r, ids)

        def call():
            k = r.random()
            if k < .2:
                return ["w", " ".join(ev_text(e) for e in gen_batch(r, ids, 4, big=0))]
            if k < .27:
                return ["w", ""]
            if k < .32:
                return ["wb", "0 1 5 2 - r 1 10"]
            if k < .4:
                return [r.choice(["scan", "scan", "c 0 open", "c 0 open 5 61", "seek 5 61 2", "c 0 read", "c 0 next", "c 0 close"]), ""]
            if k < .5:
                return ["x", r.choice(["set wal_rotate_wm to %d" % r.choice([100, 5000, 1 << 20]), "set compression_level to %d" % r.randint(0, 3), "set nosuch to 1", "set test_int to 'x'",
                                       "show all", "show storages", "show partitions", "show wal", "show memory", "show pipeline", "show clouds", "show nosuch",
                                       "set error_wal to false", "", "# nothing"])]
            if k < .6:
                return ["x", r.choice(["checkpoint", "service", "rebalance", "create cloud q (type 'mock')", "create storage q", "drop partitions between 0 and %d" % I63,
                                       "alter pipeline reset", "alter storage main set (sync false)", "create partition %d" % r.randint(0, 9), "debug \"wal_gc\"",
                                       "debug \"wal_create\"", "move partitions between 0 and %d into main" % I63, "drop storage if exists nosuch", "drop storage if exists s0"])]
            if k < .63:
                return ["x", r.choice(["creat storage q", "drop", "'", "(", "create storage", "checkpoint checkpoint", "show", "set"])]
            for _ in range(20):
                t = c14.render(g.command())
                if not t.startswith("set"):
                    break
            return ["x", t]
        lives = []
        for i in range(r.choice([1, 2, 2, 3, 5])):
            fails = []
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                k = r.choice(["parent", "plain", "fault", "fault"] + ["busy", "badconfig"] * (i > 0))
                f = [k]
                if k == "fault":
                    f += [r.choice(["fail", "fail", "failall"]), r.choice(["any", "mut", "wr", "create", "sync", "read"]), r.choice([0, 1, 2, 5, r.randint(0, 20), r.randint(0, 60)])]
                if k == "badconfig":
                    f.append(r.choice(["", "{", "[]", "nonsense", '{"uuid": 5}']).encode().hex() or "-")
                fails.append([f, [call() for _ in range(r.choice([0, 1, 2, 4]))], [call() for _ in range(r.choice([0, 1, 2, 4]))]])
            post = []
            for _ in range(r.randint(1, 6)):
                k = r.random()
                if k < .4:
                    post.append(["w", gen_batch(r, ids, r.choice([1, 3, 8]), big=0.01)])
                elif k < .55:
                    post.append(["again", r.choice(["db", "db", "zz_second", "no/such"])])
                elif k < .62:
                    post.append(["empty"])
                elif k < .7:
                    post.append(["past", r.choice([1, 2, 5])])
                elif k < .75:
                    post.append(["spare", [call() for _ in range(2)]])
                else:
                    o = gen_maint(r, ids, lay, drops=0.1, alters=False)
                    if o[0] not in ("reopen", "newproc"):
                        post.append(o)
            lives.append([fails, [call() for _ in range(r.choice([0, 1, 3, 6]))], post, r.choice(["close", "close", "newproc", "kill"])])
        return {"cfg": cfg, "lives": lives, "variant": "asan" if r.random() < 0.12 else "plain"}

    def run(self, case):
        cfg = case["cfg"]
        w = Db(cfg)
        box = {}

        def save(name):
            def cb(line, res):
                box[name] = res
            return cb

        def same(name, what):
            def cb(line, res):
                if res != box[name]:
                    raise Fail("%s: %s instead of %s" % (what, res[:300], box[name][:300]))
            return cb

        def refused(what):
            def cb(line, res):
                if not res.startswith("err ") or len(res) < 8:
                    raise Fail("%s answered: %s" % (what, res[:200]))
                w.bump("refused")
            return cb

        def calls(cs, what):
            """calls on a handle which is not open; nothing in the scratch directory changes"""
            if not cs:
                return
            w.line("hashdir", save("hash"))
            for op, arg in cs:
                line = "raw " + (op + " " + arg).strip()
                c = arg.strip().split(" ")[0].split("#")[0].lower() if op == "x" else None
                if op == "x" and c in ("set", "show"):
                    m = re.match(r"set (wal_rotate_wm|compression_level) to (\d+)$", arg)

                    def cb(line, res, m=m, arg=arg):
                        if m:
                            if not res.startswith("ok"):
                                raise Fail("'%s' before the open answered: %s" % (arg, res[:200]))
                            box[m.group(1)] = m.group(2)
                        elif arg.startswith("show") and not res.startswith("ok") and arg in ("show all", "show storages", "show partitions", "show clouds"):
                            raise Fail("'%s' before the open answered: %s" % (arg, res[:200]))
                    w.line(line, cb)
                elif op == "x" and c == "":
                    w.line(line)
                elif op.startswith("c 0") and "open" not in op:
                    w.line(line, lambda line, res: res == "none" or (_ for _ in ()).throw(Fail("cursor exists on an environment which is not open: " + res)))
                else:
                    w.line(line, refused("'%s' on an environment which is %s" % ((op + " " + arg)[:150], what)))
            w.line("hashdir", same("hash", "files changed by calls on an environment which is %s" % what))

        def sets(first):
            w.line("nop", lambda line, res: (box.pop("wal_rotate_wm", None), box.pop("compression_level", None)))
            if first:
                st = dict(DEFCFG)
                st.update({k: v for k, v in cfg.items() if not k.startswith("_")})
                w.s.ok("x set uuid to '%s'" % UUID)
                for k, v in st.items():
                    w.s.ok("x set %s to %s" % (k, fmt(v)))
        defs = ["storages", "clouds", "pipeline"]

        def fresh_state(first, judge=False):
            for d in defs:
                def cb(line, res, d=d):
                    j = jparse(res)
                    if d == "storages":
                        names = list(j)
                        if first and names != ["main"]:
                            raise Fail("storages of a new environment: %s" % names)
                        j = {n: {k: v for k, v in x.items() if k in KEEP} for n, x in j.items()}
                    elif first and j:
                        raise Fail("%s of a new environment: %s" % (d, res[:200]))
                    if not first and j != box["d." + d]:
                        raise Fail("%s differ after the open: %s instead of %s" % (d, json.dumps(j)[:400], json.dumps(box["d." + d])[:400]))
                w.line("x show " + d, cb)

            def cb(line, res):
                j = jparse(res)
                for k in ("wal_rotate_wm", "compression_level"):
                    if judge and k in box and str(j[k]).lower() != box[k]:
                        raise Fail("%s = %s after the open instead of %s" % (k, j[k], box[k]))
                if not first:
                    a = {k: v for k, v in j.items() if not k.startswith(("test_", "error_", "ssn", "lsn", "psn"))}
                    b = {k: v for k, v in box["d.all"].items() if not k.startswith(("test_", "error_", "ssn", "lsn", "psn"))}
                    if a != b:
                        raise Fail("settings differ after the open: %s" % [(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)])
            w.line("x show all", cb)

        def keep_state():
            for d in defs:
                def cb(line, res, d=d):
                    j = jparse(res)
                    if d == "storages":
                        j = {n: {k: v for k, v in x.items() if k in KEEP} for n, x in j.items()}
                    box["d." + d] = j
                w.line("x show " + d, cb)
            w.line("x show all", lambda line, res: box.__setitem__("d.all", jparse(res)))
        pre = cfg.get("_pre", [])
        for l in pre:
            w.s.ok(l)
        never = True                    # no open succeeded or got far enough to create the configuration
        for i, (fails, before, post, end) in enumerate(case["lives"]):
            for f, c1, c2 in fails:
                k = f[0]
                w.s.ok("init 0")
                sets(i == 0)
                calls(c1, "not open")
                if k == "busy":
                    w.s.ok("init 1")
                    w.s.ok("open")
                    w.s.ok("use 0")
                    w.line("open", refused("open of a directory in use"))
                    # the owner keeps its log open
                    calls(c2, "refused to open")
                    w.s.ok("use 1")
                    w.scan("scan of the owner")
                    w.s.ok("close")
                    w.s.ok("use 0")
                    w.s.ok("close")
                    continue
                if k == "parent":
                    w.line("open no/such/parent", refused("open below a missing directory"))
                elif k == "plain":
                    w.s.ok("put plainfile 61")
                    w.line("open plainfile", refused("open of a plain file"))
                elif k == "badconfig":
                    w.s.ok("copy db/config.json keep.json")
                    w.s.ok("put db/config.json %s" % f[1])
                    w.line("open", refused("open with a damaged configuration"))
                elif k == "fault":
                    w.line("fault %s %s %d" % tuple(f[1:]))

                    def opened(line, res):
                        box["opened"] = res == "ok"
                        w.bump("opens" if res == "ok" else "refused")
                    w.line("open", opened)
                    w.line("fault off")
                if k != "fault":
                    calls(c2, "failed to open")
                else:
                    # may be open: the calls which change something are made only if it is not
                    for op, arg in c2:
                        line = (op + " " + arg).strip()

                        def cb(line, res, op=op, arg=arg):
                            if res == "none":
                                return
                            c = arg.strip().split(" ")[0].split("#")[0].lower() if op == "x" else None
                            if c in ("", "set", "show") or op.startswith("c 0") and "open" not in op:
                                return
                            if not res.startswith("err "):
                                raise Fail("'%s' after a failed open answered: %s" % (line, res[:200]))
                            w.bump("refused")
                        w.line("unopened " + line, cb)
                w.s.ok("close")
                if k == "badconfig":
                    w.s.ok("copy keep.json db/config.json")
                    w.s.ok("rmtree keep.json")
            first = i == 0
            w.s.ok("init 0")
            sets(first)
            calls(before, "not open")
            w.s.ok("open")
            fresh_state(first, first and not any(f[0][0] == "fault" for f in fails))
            if first:
                for c in cfg["_ddl"]:
                    w.s.ok("x " + c)
            w.scan("scan after the open")
            for o in post:
                if o[0] == "again":
                    w.line("hashdir db", save("hash"))
                    w.line("open " + o[1], refused("second open of one handle"))
                    w.line("hashdir db", same("hash", "directory changed by a refused second open"))
                    w.line("files zz_second", lambda line, res: res == "ok" or (_ for _ in ()).throw(Fail("a refused open created " + res[:200])))
                    w.scan("scan after a refused second open")
                elif o[0] == "empty":
                    w.s.ok("w")
                    w.scan("scan after an empty batch")
                elif o[0] == "past":
                    n = 0

                    def end_(line, res):
                        if res != "ok end":
                            raise Fail("read past the end of a cursor answered: " + res[:200])

                    def more(line, res):
                        if res != "ok 0":
                            raise Fail("next past the end of a cursor answered: " + res[:200])
                    w.write([[3, "7a", "x01"]])
                    w.s.ok("c 1 open %d ff" % (M64 - 1))
                    # whatever is left behind the key, at most a few events
                    for _ in range(40):
                        w.line("c 1 next")
                    for _ in range(o[1]):
                        w.line("c 1 next", more)
                        w.line("c 1 read", end_)
                    w.s.ok("c 1 close")
                elif o[0] == "spare":   # another handle which is never opened
                    w.s.ok("init 2")
                    calls(o[1], "not open")
                    w.s.ok("close")
                    w.s.ok("use 0")
                    w.scan("scan next to a spare handle")
                else:
                    w.op(o)
            keep_state()
            w.scan("scan before the close")
            if end == "close":
                w.s.ok("close")
            else:
                if end == "newproc":
                    w.s.ok("close")
                w.s.new_session(w.started)
                for l in pre:
                    w.s.ok(l)
        w.s.ok("init 0")
        w.s.ok("open")
        fresh_state(False)
        w.scan("final scan")
        w.s.ok("close")
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = st.get("refused", 0) >= 3
        return st

    def shrink_steps(self, case):
        L = case["lives"]
        for i in range(len(L)):
            if len(L) > 1:
                yield dict(case, lives=L[:i] + L[i + 1:])
        for i, (fails, before, post, end) in enumerate(L):
            def sub(x):
                return dict(case, lives=L[:i] + [x] + L[i + 1:])
            for j in range(len(fails)):
                yield sub([fails[:j] + fails[j + 1:], before, post, end])
            for j in range(len(before)):
                yield sub([fails, before[:j] + before[j + 1:], post, end])
            for j in range(len(post)):
                yield sub([fails, before, post[:j] + post[j + 1:], end])
            for j, (f, a, b) in enumerate(fails):
                for q in range(len(a)):
                    yield sub([fails[:j] + [[f, a[:q] + a[q + 1:], b]] + fails[j + 1:], before, post, end])
                for q in range(len(b)):
                    yield sub([fails[:j] + [[f, a, b[:q] + b[q + 1:]]] + fails[j + 1:], before, post, end])
        d = case["cfg"].get("_ddl", [])
        for i in range(len(d)):
            yield dict(case, cfg=dict(case["cfg"], _ddl=d[:i] + d[i + 1:]))
