import fakes3
from hist import *

SERVER = []


def server():
    if not SERVER:
        SERVER.append(fakes3.Server())
    SERVER[0].reset()
    return SERVER[0]


class CloudDb(Db):
    def __init__(self, cfg, port):
        super().__init__(cfg)
        self.port = port
        self.orphans = set()        # objects whose removal or upload was disturbed
        self.s3 = {}                # bucket (storage uuid) -> storage name

    ploss = 0

    def restart(self):
        self.s.new_session(self.started)
        if self.ploss:
            self.line("track 1")
        opening(self.s, self.cfg, first=False)

    def new_process(self, crash=False, rnd=None):
        if not crash:
            self.s.ok("close")
        self.restart()
        self.bump("reopens")

    def ctl(self, path, cb=None):
        self.line("http %d PUT /_ctl/%s" % (self.port, path), cb)

    def soft_scan(self):
        def cb(line, res):
            got = parse_scan(res)
            if got is None:
                if not res.startswith("err ") or len(res) < 8:
                    raise Fail("scan answered " + res[:200])
                self.bump("scan_errors")
                return
            if self.alts is None or len(self.alts) < 2:
                self.settle(got, "scan with a failing cloud")
                self.bump("soft_scans")
        self.line("scan", cb)

    def audit(self, what, tolerant=False):
        """objects on the server and files of the mock correspond to the partitions"""
        box = {}
        self.line("x show partitions", lambda l, r: box.__setitem__("parts", parts_of(r)))
        self.line("x show storages", lambda l, r: box.__setitem__("st", jparse(r)))
        self.line("crcfiles db/", lambda l, r: box.__setitem__("files", r.split()[1:]))

        def cb(line, res):
            j = json.loads(res[3:])
            if j["bad"]:
                raise Fail("%s: request a server refuses: %s" % (what, j["bad"][:3]))
            self.orphans |= set(j["lost"])
            files = {}
            for f in box["files"]:
                name, size, crc = f.rsplit(":", 2)
                files["/".join(x for x in name.split("db/", 1)[1].split("/") if x not in ("pp", "pp2", ".hidden"))] = [int(size), crc]
            uuids = {n: s["config"]["uuid"] for n, s in box["st"].items()}
            clouds = {n: s["config"]["cloud"] for n, s in box["st"].items()}
            want = {}
            for p in box["parts"]:
                u = uuids[p["storage"]]
                name = "%s/%020d" % (u, p["min"])
                local = files.get(name) or files.get(name + ".complete")
                if p["on_cloud"]:
                    want[name] = (clouds[p["storage"]], local if p["on_storage"] else None)
                if p["on_storage"] and local is None:
                    raise Fail("%s: partition %d has no file on its storage" % (what, p["min"]))
                if not p["on_storage"] and name in files:
                    raise Fail("%s: partition %d has a file on storage while it is reported to be on the cloud only" % (what, p["min"]))
            have = {}
            for b, os in j["objects"].items():
                for o, v in os.items():
                    have["%s/%s" % (b, o)] = v
            for name, v in files.items():
                t = name.split("/")
                if len(t) == 3 and t[1] == "mock":
                    have["%s/%s" % (t[0], t[2])] = v
            for n, (cloud, local) in want.items():
                self.bump("objects")
                if n not in have:
                    raise Fail("%s: object %s is missing" % (what, n))
                if local is not None:
                    self.bump("compared")
                    if have[n] != local:
                        raise Fail("%s: object %s differs from the file: %s instead of %s" % (what, n, have[n], local))
            if tolerant:
                self.orphans |= set(have) - set(want)
            for n in have:
                if n not in want and n not in self.orphans:
                    raise Fail("%s: object %s of no partition" % (what, n))
        self.ctl("list", cb)


class Check(Property):
    id = "C21"
    level = "fault_enumeration"
    quick = 4200
    thorough = 30000
    rule = ("a case is a configuration and a layout of storages with up to two clouds (S3 served by a strict loopback server that verifies signatures, "
            "or the local mock) and up to 30 writes, refreshes, moves, uploads, downloads, drops of either or both copies, restarts and crashes, with "
            "faults of the server (error status, reset, half-read request, lost response, truncated or short response, whole object for a range) and of "
            "the file system; cursors always return the content of the model or, during a fault, an error; when quiescent the objects are exactly "
            "those of the partitions reported to be on a cloud (objects with a disturbed request may stay behind) and equal to the local file where "
            "both exist; everything is readable after faults, restarts, process kills and power failures between operations; non-trivial: some content was read back from a cloud-only partition")
    assumptions = ["one thread; the server is an in-process model of S3 (no real network)"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        cfg = gen_cfg(r, [1, 3, 10, 10, 100, 1000])
        ploss = r.random() < .25        # crashes are power failures
        if ploss:
            cfg["wal_sync_on_write"] = True
        ddl = cfg["_ddl"]
        clouds = []
        for i in range(r.choice([1, 1, 1, 2])):
            n = "c%d" % i
            if r.random() < 0.7:
                ddl.append("create cloud %s (type 's3', login 'user', password 'secret-key', url '127.0.0.1:@PORT@')" % n)
            else:
                ddl.append("create cloud %s (type 'mock')" % n)
            clouds.append(n)
        names, cloudy, keep = ["main"], [], []
        lay = Layout(r, {"interval": cfg["interval"]}, nmax=0, cloud=0, sync=not ploss)
        for i in range(r.choice([1, 1, 2, 3])):
            n = "s%d" % i
            o = lay.options()
            if i == 0 or r.random() < 0.7:
                o.append("cloud '%s'" % r.choice(clouds))
                cloudy.append(n)
                if r.random() < 0.4:
                    o.append("cloud_drop_local false")
                    keep.append(n)
            ddl.append("create storage %s%s" % (n, " (%s)" % ", ".join(o) if o else ""))
            names.append(n)
        if r.random() < 0.5:
            ddl.append("alter pipeline set %s" % r.choice(cloudy))
        lay.names, lay.cloudy, lay.has_cloud = names, cloudy, True
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts", "parts", "mod32"]))
        ids.n = min(ids.n, cfg["interval"] * 5)
        ops = []
        for _ in range(r.randint(3, 30)):
            k = r.random()
            if k < 0.35:
                ops.append(["w", gen_batch(r, ids, r.choice([1, 4, 10]), big=0.05)])
            elif k < 0.38:
                ops.append(["wb", ids.fresh() // 2, 1, r.choice([5, 60]), 5, "-", "r", r.randint(0, 1 << 30), r.choice([0, 20, 100])])
            elif k < 0.75:
                ops.append(gen_maint(r, ids, lay, drops=0.12, alters=False))
            elif k < 0.79:
                ops.append(["dropone", ids.pick(), r.choice(["storage", "storage", "cloud"])])
            elif k < 0.83:
                ops.append(["audit"])
            elif k < 0.88:
                ops.append(["seekm", ids.pick() if ids.used else 0, gen_key(r), r.choice([0, 1, 3])])
            elif k < 0.91:
                ops.append(["crash"])
            elif ploss and k < .95:
                if r.random() < .6:
                    ops.append(["x", r.choice(["download partitions between 0 and %d if cloud", "upload partitions between 0 and %d if cloud", "refresh partitions between 0 and %d"]) % I63])
                ops.append(["crash"])
            else:
                f = [["http", r.choice(["PUT", "GET", "DELETE", "PUT+GET+DELETE", "GET+DELETE"]), r.choice([0, 0, 0, 1, 2, r.randint(0, 10)]),
                      r.choice(["status", "status", "reset", "half", "after", "trunc", "short", "whole"]), r.choice([500, 503, 403, 404, 400, r.randint(400, 599)]), r.choice([0, 0, 1])]] \
                    if r.random() < 0.75 else \
                    [["file", "fail", r.choice(["mut", "mut", "wr", "read", "unlink", "rename", "create", "sync"]), r.choice([0, 1, 2, r.randint(0, 15)])]]
                sub = []
                for _ in range(r.randint(1, 4)):
                    o = r.choice([["scan"], ["dropone", ids.pick(), r.choice(["storage", "cloud"])], gen_maint(r, ids, lay, drops=0.1, alters=False), gen_maint(r, ids, lay, drops=0, alters=False)])
                    if o[0] not in ("reopen", "newproc", "x"):
                        sub.append(o)
                ops.append(["faulty", f, sub, r.choice([0, 0, 0, 1])])
        return {"cfg": cfg, "ops": ops, "ploss": r.randint(1, 1 << 30) if ploss else 0, "variant": "asan" if r.random() < 0.08 else "plain"}

    def run(self, case):
        srv = server()
        cfg = dict(case["cfg"])
        cfg["_ddl"] = [d.replace("@PORT@", str(srv.port)) for d in cfg.get("_ddl", [])]
        w = CloudDb(cfg, srv.port)
        ploss = w.ploss = case.get("ploss", 0)
        if ploss:
            w.line("track 1")
        w.start()
        for i, o in enumerate(case["ops"]):
            if o[0] == "audit":
                w.audit("audit")
            elif o[0] == "dropone":
                self.dropone(w, o)
            elif o[0] == "crash":
                if ploss:
                    w.line("crash %d" % (ploss + i))
                w.restart()
                w.scan("scan after a crash")
            elif o[0] == "faulty":
                self.faulty(w, cfg, o)
            else:
                w.op(o)
        # the partitions served from a cloud only
        box = {}
        w.show_parts()

        def count(line, res):
            n = sum(1 for p in w.parts if p["on_cloud"] and not p["on_storage"] and p["events"] > 0)
            if n:
                w.bump("cloud_only_parts", n)
        w.line("x show partitions", count)
        w.scan("final scan")
        w.audit("final audit")
        w.new_process()
        w.scan("scan after reopen")
        w.audit("audit after reopen")
        for i in range(1):
            w.cmd("download partitions between 0 and %d if cloud" % I63, must=False)
        w.scan("scan after download")
        w.audit("audit after download")
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = st.get("cloud_only_parts", 0) > 0
        return st

    def dropone(self, w, o):
        # one of two copies
        if o[2] == "storage":
            w.line("x upload partition if exists %d if cloud" % o[1])

        def cb(line, res):
            if res.startswith("ok"):
                w.bump("drops_of_one")
            elif res != "none" and not w.soft:
                raise Fail("%s answered %s" % (line, res[:200]))
        w.line("ifboth %d x drop partition if exists %d on %s" % (o[1], o[1], o[2]), cb)

    def faulty(self, w, cfg, o):
        w.soft = True

        def on(line, res):
            w.soft = True
        f = o[1][0]
        if f[0] == "http":
            w.ctl("fault/%s/%d/%s/%d/%d" % tuple(f[1:]), on)
        else:
            w.line("fault fail %s %d" % (f[2], f[3]), on)
        dropped = False
        for x in o[2]:
            if dropped and x[0] in ("drop", "dropr"):
                continue
            dropped = dropped or x[0] in ("drop", "dropr")
            if x[0] == "scan":
                w.soft_scan()
            elif x[0] in ("ck", "drain"):
                if x[0] == "ck":
                    w.line("x checkpoint")
                w.line("until 40 x service")
            elif x[0] == "seekm":
                pass
            elif x[0] == "dropone":
                self.dropone(w, x)
            else:
                w.op(x)

        def off(line, res):
            w.soft = False
            if '"fired": 0' not in res and "fired=0" not in res:
                w.bump("faults")
        if f[0] == "http":
            w.ctl("off", off)
        else:
            w.line("fault off", off)
        if o[3] or any(x[0] in ("drop", "dropr") for x in o[2]):      # a failed drop is settled by the restart
            w.restart()
        w.soft = False
        w.scan("scan after a fault")
        w.audit("audit after a fault", True)
