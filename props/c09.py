from hist import *

MARK = "d4c3b2a1f0e9d8c7b6a5948372615fab"     # 16 bytes in every value


def uuid(i):
    return "0000aaaa-0000-0000-0000-%012d" % i


class Check(Property):
    id = "C09"
    quick = 3600
    thorough = 30000
    rule = ("a case is 2-5 storages with any compression, level, encryption, key, region size and checksum settings (optional mock cloud) and up to "
            "30 operations: writes of compressible, random, empty and large values that carry a 16-byte marker, refresh, moves between the "
            "storages, uploads, alterations of the settings, restarts; every scan equals the model, the marker never occurs in a file of a storage "
            "with encryption on, no 16 encrypted bytes occur twice in all versions of its files, and compressible data moved to a storage with compression takes less than half of its size; non-trivial: three or "
            "more events were in files of storages with different settings or were moved")
    assumptions = ["one thread, no background workers", "the write-ahead log is not encrypted (not part of a storage)"]
    variants = ["plain", "asan"]

    def opts(self, r):
        o = []
        if r.random() < 0.7:
            o.append("region_size %d" % r.choice([1, 60, 200, 1000, 4096, 8192, 131072, 1 << 20]))
        o.append("compression '%s'" % r.choice(["", "lz4", "zstd", "zstd"]))
        if r.random() < 0.4:
            o.append("compression_level %d" % r.choice([0, 1, 3, 9, 19]))
        if r.random() < 0.3:
            o.append("crc true")
        if r.random() < 0.6:
            o.append("encryption 'aes'")
            if r.random() < 0.4:
                o.append("encryption_key '%s'" % "".join(r.choice("abcXYZ0189 _-/+%") for _ in range(32)))
        return o

    def val(self, r):
        k = r.random()
        if k < 0.45:
            return "c%s.%d" % (MARK, r.choice([16, 20, 33, 100, 1000, 5000, 20000]))
        if k < 0.55:
            return "c%s.%d" % (MARK + "00" * r.choice([1, 40]), r.choice([32, 300, 40000]))
        if k < 0.75:
            return "x" + bytes(r.randint(0, 255) for _ in range(r.randint(0, 60))).hex() + MARK + bytes(r.randint(0, 255) for _ in range(r.randint(0, 90))).hex()
        return gen_value(r, 0.05)

    def gen(self, r, tier):
        cfg = gen_cfg(r, [3, 10, 10, 100, 1000, 1000])
        cfg["_ddl"] = []
        cloud = r.random() < 0.25
        if cloud:
            cfg["_ddl"].append("create cloud cl (type 'mock')")
        names = ["main"]
        if r.random() < 0.8:
            cfg["_ddl"].append("alter storage main set (%s)" % ", ".join(self.opts(r)))
        for i in range(r.randint(1, 4)):
            o = self.opts(r) + ["uuid '%s'" % uuid(i)]
            if cloud and r.random() < 0.5:
                o.append("cloud 'cl'")
            cfg["_ddl"].append("create storage s%d (%s)" % (i, ", ".join(o)))
            names.append("s%d" % i)
        ids = Ids(r, cfg["interval"], r.choice(["dense", "gaps", "parts"]))
        ids.n = min(ids.n, cfg["interval"] * 8)
        ops = []
        for _ in range(r.randint(3, 26)):
            k = r.random()
            if k < 0.4:
                ops.append(["w", [[ids.pick(), MARK if r.random() < .3 else gen_key(r), self.val(r)] for _ in range(r.choice([1, 2, 5, 20]))]])
            elif k < 0.45:
                ops.append(["wb", ids.fresh(), 1, r.choice([20, 300]) if cfg["interval"] >= 100 else 10, 10, "-", r.choice(["r", "c"]), r.randint(0, 1 << 30), r.choice([0, 7, 64, 1000])])
            elif k < 0.55:
                ops.append(["refresh", r.choice(ids.used) if ids.used else 0])
            elif k < 0.60:
                ops.append(["ck"])
            elif k < 0.75:
                ops.append(["move", r.choice(ids.used) if ids.used else 0, r.choice(names)])
            elif k < 0.80:
                ops.append(["mover", 0, I63, r.choice(names)])
            elif k < 0.90:
                ops.append(["x?", "alter storage %s set (%s)" % (r.choice(names), ", ".join(self.opts(r)))])
            elif k < 0.95 and cloud:
                ops.append(r.choice([["upload", r.choice(ids.used or [0])], ["download", r.choice(ids.used or [0])]]))
            else:
                ops.append([r.choice(["reopen", "newproc", "scan", "drain"])])
        return {"cfg": cfg, "ops": ops, "last": self.opts(r), "variant": "asan" if r.random() < 0.2 else "plain"}

    def run(self, case):
        w = Db(case["cfg"])
        w.start()
        for o in case["ops"]:
            w.op(o)
        w.scan()
        self.secret(w)
        w.refresh_all()
        self.secret(w)
        w.new_process()
        w.scan("scan after refresh and reopen")
        # everything into one new storage
        w.cmd("create storage zz (%s)" % ", ".join(case["last"] + ["uuid '%s'" % uuid(99)]))
        w.cmd("download partitions between 0 and %d if cloud" % I63)
        w.cmd("drop partitions between 0 and %d on cloud" % I63, must=False)
        w.cmd("move partitions between 0 and %d into zz" % I63)
        self.secret(w)
        self.size(w, case["last"])
        w.scan("scan after move")
        w.reopen()
        w.scan("scan after move and reopen")
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = len(w.m.d) >= 3 and st.get("commands", 0) >= 3
        return st

    def secret(self, w):
        """no marker in the files of storages with encryption on"""
        state = {}

        def shown(line, res):
            for n, s in jparse(res).items():
                state[s["config"]["uuid"]] = s["config"]["encryption"]
        w.line("x show storages", shown)
        for u in [UUID] + [uuid(i) for i in range(4)] + [uuid(99)]:
            def cb(line, res, u=u):
                n = int(res.split()[1])
                if n and state.get(u):
                    raise Fail("event data in clear in %d places in files of storage %s with encryption on" % (n, u))
                if n:
                    w.bump("markers_in_clear_elsewhere")
                elif state.get(u):
                    w.bump("encrypted_storages_searched")
            w.line("grepf %s/ %s" % (u, MARK), cb)

            def cb2(line, res, u=u):
                f = res.split()
                if state.get(u) and int(f[1]):
                    raise Fail("%s encrypted blocks of 16 bytes occur twice (initialization vector reused, or data not encrypted), first in %s" % (f[1], f[3]))
                if state.get(u):
                    w.bump("encrypted_files_compared", int(f[2]))
            w.line("repeat %s/" % u, cb2)

    def size(self, w, opts):
        if not any(o in ("compression 'lz4'", "compression 'zstd'") for o in opts):
            return
        rs = [int(o.split()[1]) for o in opts if o.startswith("region_size")]
        if rs and rs[0] < 4096:
            return

        def cb(line, res):
            for p in parts_of(res):
                v = [(k, d) for k, d in w.m.d.items() if p["min"] <= k[0] <= p["max"]]
                raw = sum(len(k[1]) + int(d.split(".")[0]) + 10 for k, d in v)
                comp = sum(int(d.split(".")[0]) for k, d in v if d in w.compressible)
                if p["storage"] == "zz" and comp > 3000 and p["size"] > raw - comp * 0.6 + 300 + 40 * len(v):
                    raise Fail("partition %d: %d bytes of compressible values of %d take %d bytes with %s" % (p["min"], comp, raw, p["size"], opts))
                if comp > 3000:
                    w.bump("compressed_partitions")
        w.compressible = set()
        w.line("x show partitions", cb)
        for s in w.s.lines:
            if s.startswith("w "):
                for e in s.split()[1:]:
                    v = e.split(":")[2]
                    if v[0] == "c" and int(v.split(".")[1]) >= 1000:
                        w.compressible.add(digest(v))
