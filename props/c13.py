from hist import *
import copy

INT_OPTS = ["refresh_wm", "region_size", "compression_level"]
BOOL_OPTS = ["cloud_drop_local", "sync", "crc"]
SRC_DEF = {"path": "", "cloud": "", "cloud_drop_local": True, "sync": True, "crc": False, "refresh_wm": 40 << 20, "region_size": 128 << 10,
           "compression": "", "compression_level": 0, "encryption": "", "encryption_key": ""}
CLOUD_DEF = {"type": "", "login": "", "password": "", "url": "", "debug": False}
PREOPEN = {"mm_page_size": [131072, 1 << 20], "mm_limit_wm": [1 << 30, 1 << 40, I63], "mm_limit_behaviour": ["block", "error"],
           "mm_cache": [0, 1 << 30], "wal_rotate_wm": [1, 100, 1 << 20, I63], "wal_sync_on_rotate": [True, False],
           "wal_sync_on_write": [True, False], "wal_crc": [True, False], "serial": [True, False], "interval": [1, 10, 1000, 1 << 40, I63],
           "compression": ["", "lz4", "zstd", "none"], "compression_level": [0, 3, 7], "log": [True, False], "log_to_file": [True, False]}
ONLINE = {"wal_rotate_wm": [1, 100, 1 << 20, I63], "interval": [1, 7, 1000, 1 << 40], "compression": ["", "lz4", "zstd", "none"],
          "compression_level": [0, 1, 9, I63]}
CHARS = ["a", "Z", "9", " ", "_", "-", "/", ":", ",", "{", "}", "[", "]", "(", ")", "%", "%s", "%n", "&", "=", "?", "#", ";", "\t", "\\\\", "\\n", "\\u0041", "é", "漢", "\x01", "\x1f", "\x7f", "\r"]


def lit(r, v):
    """SQL literal of a value and the value itself"""
    if isinstance(v, bool):
        return ("true" if v else "false"), v
    if isinstance(v, int):
        return str(v), v
    q = "'" if '"' in v or r.random() < .7 else '"'
    return q + v + q, v


class Ddl(Db):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.defs = None            # {"storages", "clouds", "pipeline", "vars"}
        self.disk = []              # what the file may hold, when not the same as defs
        self.pend = {}              # line -> op of the definition change
        self.maybe = None           # definitions in memory after a failed save
        self.shown = {}
        self.uuids = {}
        self.stats = {}
        self.fault_on = False

    # ------------------------------------------------------------- model of one command
    def apply(self, d, op):
        """-> definitions after the command, or None if it must be refused"""
        d = copy.deepcopy(d)
        k = op[0]
        S, C, P = d["storages"], d["clouds"], d["pipeline"]
        if k == "bad":
            return None
        if k == "set":
            if op[1] in d["vars"]:
                d["vars"][op[1]] = op[3]
            return d
        if k in ("cc", "ca", "sc", "sa"):
            opts = {}
            for n, text, v in op[3]:
                opts[{"access_key": "login", "secret_key": "password"}.get(n, n)] = v
            if k[0] == "s":
                if opts.get("region_size") == 0 or opts.get("compression", "") not in ("", "none", "lz4", "zstd") or \
                        (k == "sa" and "uuid" in opts) or not re.fullmatch(r"[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}", opts.get("uuid", UUID)) or opts.get("encryption", "") not in ("", "none", "aes") or len(opts.get("encryption_key", "").encode()) not in (0, 32):
                    return None
        if k == "cc":
            if op[2] in C:
                return d if op[1] else None
            if opts.get("type") not in ("mock", "s3"):
                return None
            if opts["type"] == "s3" and not all(opts.get(n) for n in ("login", "password", "url")):
                return None
            C[op[2]] = dict(CLOUD_DEF, name=op[2], **opts)
            return d
        if k == "ca":
            if "type" in opts:
                return None
            if op[2] not in C:
                return d if op[1] else None
            C[op[2]].update(opts)
            if C[op[2]]["type"] == "s3" and not all(C[op[2]][n] for n in ("login", "password", "url")):
                return None
            return d
        if k == "cd":
            if op[2] not in C:
                return d if op[1] else None
            if any(s["cloud"] == op[2] for s in S.values()):
                return None
            del C[op[2]]
            return d
        if k == "cr":
            if op[2] not in C:
                return d if op[1] else None
            if op[3] in C:
                return None
            d["clouds"] = {(op[3] if n == op[2] else n): dict(c, name=op[3] if n == op[2] else n) for n, c in C.items()}
            for s in S.values():
                if s["cloud"] == op[2]:
                    s["cloud"] = op[3]
            return d
        if k in ("sc", "sa") and C.get(opts.get("cloud"), {}).get("type") == "s3" and (op[2] not in S if k == "sc" else op[2] in S and S[op[2]]["cloud"] != opts["cloud"]):
            return None         # nothing answers
        if k == "sc":
            if op[2] in S:
                return d if op[1] else None
            if opts.get("cloud", "") and opts["cloud"] not in C:
                return None
            s = dict(SRC_DEF, name=op[2], uuid=None)
            if d["vars"]["compression"]:
                s["compression"], s["compression_level"] = d["vars"]["compression"], d["vars"]["compression_level"]
            s.update(opts)
            if s["encryption"] == "aes" and not s["encryption_key"]:
                s["encryption_key"] = None      # generated
            S[op[2]] = s
            return d
        if k == "sa":
            if op[2] not in S:
                return d if op[1] else None
            st = self.stats.get(op[2], {})
            if st.get("partitions", 0) and any(n in opts for n in ("crc", "path", "encryption", "encryption_key")):
                return None
            if "cloud" in opts and (st.get("partitions_cloud", 0) or (opts["cloud"] and opts["cloud"] not in C)):
                return None
            s = S[op[2]]
            if opts.get("encryption") == "aes" and "encryption_key" not in opts and s["encryption_key"] == "":
                opts["encryption_key"] = None
            s.update(opts)
            return d
        if k == "sd":
            if op[2] == "main":
                return None
            if op[2] not in S:
                return d if op[1] else None
            if self.stats.get(op[2], {}).get("partitions", 0) or any(t["name"] == op[2] for t in P):
                return None
            del S[op[2]]
            return d
        if k == "sr":
            if op[2] == "main":
                return None
            if op[2] not in S:
                return d if op[1] else None
            if op[3] in S:
                return None
            d["storages"] = {(op[3] if n == op[2] else n): dict(c, name=op[3] if n == op[2] else n) for n, c in S.items()}
            for t in P:
                if t["name"] == op[2]:
                    t["name"] = op[3]
            return d
        if k == "p":
            names = [t[0] for t in op[1]]
            if len(set(names)) != len(names) or any(n not in S for n in names) or any(not t[1] for t in op[1][:-1]):
                return None
            P[:] = [dict({"name": t[0], "partitions": -1, "size": -1, "events": -1, "duration": -1}, **dict(t[1])) for t in op[1]]
            return d
        raise AssertionError(op)

    @staticmethod
    def text(op):
        k = op[0]
        o = lambda opts: " (%s)" % ", ".join("%s %s" % (n, t) for n, t, v in opts)
        if k == "bad":
            return op[1]
        if k == "set":
            return "set %s to %s" % (op[1], op[2])
        if k in ("cc", "sc"):
            return "create %s %s%s%s" % ("cloud" if k == "cc" else "storage", "if not exists " if op[1] else "", op[2], o(op[3]) if op[3] else "")
        if k in ("ca", "sa"):
            return "alter %s %s%s set%s" % ("cloud" if k == "ca" else "storage", "if exists " if op[1] else "", op[2], o(op[3]))
        if k in ("cd", "sd"):
            return "drop %s %s%s" % ("cloud" if k == "cd" else "storage", "if exists " if op[1] else "", op[2])
        if k in ("cr", "sr"):
            return "alter %s %s%s rename to %s" % ("cloud" if k == "cr" else "storage", "if exists " if op[1] else "", op[2], op[3])
        if not op[1]:
            return "alter pipeline reset"
        return "alter pipeline set " + ", ".join(n + (" (%s)" % ", ".join("%s %d" % (a, b) for a, b in l) if l else "") for n, l in op[1])

    # ------------------------------------------------------------- commands
    def ddl(self, op):
        text = self.text(op)
        if op[0] in ("sa", "sd", "sr"):
            self.line("x show storages", self.see_stats)

        def cb(line, res):
            after = self.apply(self.defs, op)
            if res.startswith("ok"):
                if after is None:
                    raise Fail("'%s' was accepted" % text[:200])
                if op[0] in ("cc", "sc", "sa", "sr", "cr", "p", "ca") and after != self.defs:
                    self.bump("definitions_changed")
                if op[0] == "set" and op[1] == "interval":
                    self.interval = op[3]
                self.defs = after
                self.disk = []
                if self.maybe:
                    self.maybe = [x for x in (self.apply(a, op) for a in self.maybe) if x is not None]
                return
            if not res.startswith("err ") or len(res) <= 4:
                raise Fail("'%s' answered: %s" % (text[:200], res[:200]))
            self.bump("refused")
            if after is not None:
                if not self.fault_on:
                    raise Fail("'%s' was refused: %s" % (text[:300], res[:300]))
                self.bump("failed_saves")
                mem = self.maybe or [self.defs]
                new = [x for x in (self.apply(a, op) for a in mem) if x is not None]
                self.disk = (self.disk or mem) + new
                self.maybe = mem + new
        self.pend[len(self.s.lines)] = op
        self.line("xh " + text.encode("utf-8", "surrogateescape").hex(), cb)

    def see_stats(self, line, res):
        self.stats = {n: s["stats"] for n, s in jparse(res).items()}

    def started(self, crashed, pos):
        super().started(crashed, pos)
        if self.maybe is not None:
            self.disk = self.disk or self.maybe
        if crashed and pos in self.pend:
            mem = self.maybe or [self.defs]
            new = [x for x in (self.apply(a, self.pend[pos]) for a in mem) if x is not None]
            self.bump("crashes_in_ddl")
            self.disk = (self.disk or mem) + new

    def loaded(self):
        """after a restart the definitions are those of the file"""
        def cb(line, res):
            if self.disk:
                self.maybe = self.disk
            self.disk = []
        self.line("nop", cb)

    def check(self, file=True):
        """compare everything that is shown (and the file) with the model"""
        got = {}

        def keep(name):
            def cb(line, res):
                got[name] = jparse(res)
            return cb
        self.line("x show storages", keep("storages"))
        self.line("x show clouds", keep("clouds"))
        self.line("x show pipeline", keep("pipeline"))
        self.line("x show all", keep("vars"))

        def cb(line, res):
            alts = self.maybe or [self.defs]
            f = None
            if file and not self.disk and not self.fault_on:
                if not res.startswith("ok "):
                    raise Fail("no configuration file")
                try:
                    f = json.loads(bytes.fromhex(res[3:]).decode("utf-8", "surrogateescape"), strict=False)
                except ValueError as e:
                    raise Fail("configuration file is not valid JSON: %s" % e)
            errs = [self.match(d, got, f) for d in alts]
            good = [d for d, e in zip(alts, errs) if e is None]
            if not good:
                raise Fail("definitions differ: " + errs[-1])
            self.maybe = good if len(good) > 1 and any(d != good[0] for d in good) else None
            self.defs = good[0]
            for d in good:
                self.learn(d, got, f)
            self.bump("definitions_compared")
        self.line("cat db/config.json", cb)

    def match(self, d, got, f):
        want = list(d["storages"])
        if list(got["storages"]) != want:
            return "storages are %s instead of %s" % (list(got["storages"]), want)
        for n, s in d["storages"].items():
            g = got["storages"][n]["config"]
            for k, v in s.items():
                if k == "encryption_key":
                    continue
                w = self.uuids.get(n) if k == "uuid" and v is None else v
                if w is not None and g.get(k) != w:
                    return "storage %s has %s = %r instead of %r" % (n, k, g.get(k), w)
        if list(got["clouds"]) != list(d["clouds"]):
            return "clouds are %s instead of %s" % (list(got["clouds"]), list(d["clouds"]))
        for n, c in d["clouds"].items():
            for k, v in c.items():
                if k != "password" and got["clouds"][n].get(k) != v:
                    return "cloud %s has %s = %r instead of %r" % (n, k, got["clouds"][n].get(k), v)
        if got["pipeline"] != d["pipeline"]:
            return "pipeline is %s instead of %s" % (got["pipeline"], d["pipeline"])
        for k, v in d["vars"].items():
            if got["vars"].get(k) != v:
                return "setting %s is %r instead of %r" % (k, got["vars"].get(k), v)
        if f is None:
            return None
        for k, v in d["vars"].items():
            if f.get(k) != v:
                return "setting %s is %r instead of %r in the file" % (k, f.get(k), v)
        if (f.get("pipeline") or []) != d["pipeline"]:
            return "pipeline is %s instead of %s in the file" % (f.get("pipeline"), d["pipeline"])
        if [c["name"] for c in f.get("clouds") or []] != list(d["clouds"]):
            return "clouds in the file"
        for c in f.get("clouds") or []:
            if c != d["clouds"][c["name"]]:
                return "cloud %s is %s instead of %s in the file" % (c["name"], c, d["clouds"][c["name"]])
        if not f.get("storages") and list(d["storages"]) == ["main"]:
            return None     # not saved before the first change
        if [s["name"] for s in f.get("storages") or []] != list(d["storages"]):
            return "storages in the file"
        for s in f.get("storages") or []:
            for k, v in d["storages"][s["name"]].items():
                if k == "encryption_key" and v is None:
                    if len(s[k]) != 32:
                        return "storage %s has no generated key" % s["name"]
                    continue
                w = self.uuids.get(s["name"]) if k == "uuid" and v is None else v
                if w is not None and s.get(k) != w:
                    return "storage %s has %s = %r instead of %r in the file" % (s["name"], k, s.get(k), w)
        return None

    def learn(self, d, got, f):
        """remember generated identities and keys"""
        us = [s["config"]["uuid"] for s in got["storages"].values()]
        if len(set(us)) != len(us):
            raise Fail("two storages have the same uuid")
        for n, s in d["storages"].items():
            if s["uuid"] is None:
                s["uuid"] = got["storages"][n]["config"]["uuid"]
                if not re.fullmatch(r"[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}", s["uuid"]):
                    raise Fail("storage %s has uuid %s" % (n, s["uuid"]))
        for s in (f or {}).get("storages") or []:
            if d["storages"][s["name"]]["encryption_key"] is None:
                d["storages"][s["name"]]["encryption_key"] = s["encryption_key"]

    def first(self, sets):
        v = {"uuid": UUID, "log": True, "log_to_file": True, "log_to_stdout": False, "mm_page_size": 2097152, "mm_limit": False,
             "mm_limit_wm": 8589934592, "mm_limit_behaviour": "block", "mm_cache": 8589934592, "wal": True, "wal_rotate_wm": 104857600,
             "wal_sync_on_rotate": True, "wal_sync_on_write": False, "wal_crc": False, "serial": True, "interval": 3000000,
             "compression": "zstd", "compression_level": 0, "workers": 0, "workers_upload": 0}
        v["interval"] = DEFCFG["interval"]
        v.update(sets)
        m = dict(SRC_DEF, name="main", uuid=UUID)
        if v["compression"]:
            m["compression"], m["compression_level"] = v["compression"], v["compression_level"]
        self.defs = {"storages": {"main": m}, "clouds": {}, "pipeline": [], "vars": v}

    def after_open(self):
        self.loaded()
        self.check()


class Check(Property):
    id = "C13"
    quick = 5400
    thorough = 50000
    rule = ("a case is a set of settings given before the first open and up to 25 commands: create, alter, rename, drop of storages and clouds "
            "(any option subset; string values with quotes, backslashes, control and non-ASCII characters, long strings), pipeline changes, SET, "
            "deliberately invalid commands (the last option invalid), mixed with writes, moves, clean restarts, failing saves and crashes (kill, "
            "torn write, power loss) at any file-system mutation of a command; a model of the definitions predicts acceptance and the exact result "
            "of SHOW STORAGES/CLOUDS/PIPELINE/ALL and of config.json after every command and every restart; data stays readable. non-trivial: at "
            "least three definitions changed and one restart")
    assumptions = ["when the save of the definitions itself fails, the definitions from before or after the command are both accepted, in "
                   "memory and on disk", "one thread, no background workers", "string values are kept as typed between the quotes"]
    variants = ["plain", "asan"]

    # ---------------------------------------------------------------- generators
    def name(self, r, pool, new=False):
        if not new and pool and r.random() < .75:
            return r.choice(pool)
        return r.choice(["a", "b", "s1", "S1", "x_y", "t.u", "v$1", "_z", "name", "abcdefghij" * 12, "q%d" % r.randint(0, 30)])

    def string(self, r, big=True):
        k = r.random()
        if k < .15:
            return ""
        if k < .5:
            return "".join(r.choice("abcXYZ019-_/.") for _ in range(r.randint(1, 12)))
        if k < .9:
            s = "".join(r.choice(CHARS) for _ in range(r.randint(1, 10)))
            j = r.random()
            return s + ('"' if j < .3 else "'" if j < .0 else "")
        return ("".join(r.choice(CHARS[:8]) for _ in range(7))) * (r.choice([40, 200, 700]) if big else 5)

    def src_opts(self, r, clouds, alter):
        o = []
        ks = r.sample(["path", "cloud", "cloud_drop_local", "sync", "crc", "refresh_wm", "region_size", "compression", "compression_level",
                       "encryption", "encryption_key", "uuid"], r.choice([0, 1, 1, 2, 3, 5]) if not alter else r.choice([1, 1, 2, 3]))
        for k in ks:
            if k == "path":
                v = "".join(r.choice(["a", "B", " ", "é", "-", "%s", "%d", "{", "#", "\\\\"]) for _ in range(r.randint(0, 5)))
                v = "p" + v if v else ""
            elif k == "cloud":
                v = r.choice(clouds) if clouds and r.random() < .8 else r.choice(["", "nocloud"])
            elif k in BOOL_OPTS:
                v = r.random() < .5
            elif k == "refresh_wm":
                v = r.choice([1, 100, 1 << 20, I63])
            elif k == "region_size":
                v = r.choice([1, 200, 4096, 1 << 20]) if r.random() < .95 else 0
            elif k == "compression":
                v = r.choice(["", "none", "lz4", "zstd", "zstd"]) if r.random() < .93 else r.choice(["lz", "zstd2", "ZSTD", " "])
            elif k == "compression_level":
                v = r.choice([0, 1, 5, 19])
            elif k == "encryption":
                v = r.choice(["", "none", "aes", "aes"]) if r.random() < .95 else r.choice(["AES", "des"])
            elif k == "encryption_key":
                n = r.choice([32, 32, 32, 32, 31, 33])
                v = "".join(r.choice("abz09 _-/{}%\"") for _ in range(n))
            else:
                if alter and r.random() < .8:
                    continue
                v = "%08x-0000-4000-8000-%012x" % (r.randint(0, 1 << 31), r.randint(0, 1 << 31))
                if r.random() < .12:
                    i = r.randint(0, 35)
                    v = r.choice([v[:i], v[:i] + v[i + 1:], v[:i] + "g" + v[i + 1:], v.replace("-", "") + "0000", v[:i] + " " + v[i + 1:]])
            t, v = lit(r, v)
            o.append([k, t, v])
        return o

    def cloud_opts(self, r, alter):
        o = []
        if not alter and r.random() < .95:
            t = r.choice(["mock", "mock", "mock", "s3"])
            o.append(["type", "'%s'" % t, t])
        for k in r.sample(["url", "login", "password", "access_key", "secret_key", "debug"], 6 if o and o[0][2] == "s3" else r.choice([0, 1, 2, 3])):
            if k in ("access_key", "secret_key") and any(x[0] in ("login", "password") for x in o):
                continue
            if k in ("login", "password") and any(x[0] in ("access_key", "secret_key") for x in o):
                continue
            t, v = lit(r, r.random() < .5 if k == "debug" else self.string(r))
            o.append([k, t, v])
        if alter and (not o or r.random() < .05):
            o.append(["type", "'mock'", "mock"])
        return o

    def gen(self, r, tier):
        sets = {}
        for k in r.sample(sorted(PREOPEN), r.choice([0, 1, 3, 6])):
            sets[k] = r.choice(PREOPEN[k])
        st, cl = ["main"], []
        mock = []
        ids = Ids(r, 10, "dense")
        ids.n = 60
        ops = []
        crash = r.random() < .6
        for _ in range(r.randint(3, 25)):
            k = r.random()
            op = None
            if r.random() < .03:
                # a storage moves from cloud to cloud; those left behind can be dropped, the others not
                a, b = r.sample(["cla", "clB", "c3"], 2)
                s = self.name(r, st)
                t = ["type", "'mock'", "mock"]
                ops += [["d", ["cc", True, a, [t]]], ["d", ["cc", True, b, [t]]]]
                steps = [["sa", False, s, [["cloud", "'%s'" % c, c]]] for c in r.choices([a, b, ""], k=r.randint(1, 4))]
                if r.random() < .5:
                    s2 = "mv%d" % r.randint(0, 3)
                    st.append(s2)
                    steps[r.randint(0, len(steps)):0] = [["sc", False, s2, [["cloud", "'%s'" % a, a]]], ["sd", False, s2]]
                if r.random() < .2:
                    steps.insert(r.randint(0, len(steps)), ["cr", False, a, b + "x"])
                ops += [["d", o] for o in steps]
                if r.random() < .3:
                    ops.append(["reopen"])
                ops += [["d", ["cd", False, c]] for c in r.sample([a, b], r.choice([1, 2, 2]))]
                cl += [a, b]
                mock += [a, b]
                continue
            if k < .13:
                op = ["cc", r.random() < .15, self.name(r, cl, r.random() < .8), self.cloud_opts(r, False)]
                if op[2] not in cl:
                    cl.append(op[2])
                if ["type", "'mock'", "mock"] in op[3]:
                    mock.append(op[2])
            elif k < .17:
                op = ["cd", r.random() < .2, self.name(r, cl)]
            elif k < .23:
                op = ["ca", r.random() < .2, self.name(r, cl), self.cloud_opts(r, True)]
            elif k < .29:
                op = ["cr", r.random() < .2, self.name(r, cl), self.name(r, cl, r.random() < .8)]
                cl.append(op[3])
                if op[2] in mock:
                    mock.append(op[3])
            elif k < .44:
                op = ["sc", r.random() < .15, self.name(r, st, r.random() < .85), self.src_opts(r, [c for c in cl if c in mock], False)]
                if op[2] not in st:
                    st.append(op[2])
            elif k < .48:
                op = ["sd", r.random() < .2, self.name(r, st)]
            elif k < .58:
                op = ["sa", r.random() < .2, self.name(r, st), self.src_opts(r, [c for c in cl if c in mock], True)]
            elif k < .64:
                op = ["sr", r.random() < .2, self.name(r, st), self.name(r, st, r.random() < .8)]
                st.append(op[3])
            elif k < .70:
                ns = [self.name(r, st) for _ in range(r.choice([0, 1, 2, 3]))]
                t = []
                for i, n in enumerate(ns):
                    # a limit on the last tier drops data: only limits which are never reached there
                    t.append([n, [[a, r.choice([0, 1, 10, 1 << 40, I63] if i + 1 < len(ns) else [1 << 52, I63])] for a in r.sample(["partitions", "size", "events", "duration"], r.choice([1, 1, 2, 4]) if i + 1 < len(ns) or r.random() < .4 else 0)]])
                op = ["p", t]
            elif k < .77:
                n = r.choice(sorted(ONLINE))
                t, v = lit(r, r.choice(ONLINE[n]))
                op = ["set", n, t, v]
            elif k < .83:
                op = ["bad", self.bad(r, st, cl)]
            elif k < .90:
                ops.append(["w", gen_batch(r, ids, 4)])
            elif k < .93:
                ops.append(["x?", "move partition if exists %d into %s" % (r.choice(ids.used or [0]), self.name(r, st))])
            elif k < .97:
                ops.append([r.choice(["reopen", "newproc"])])
            else:
                ops.append(["ck"])
            if op is None:
                continue
            j = r.random()
            if j < .12:
                ops.append(["fault", "fail", r.choice(["mut", "mut", "wr", "rename", "create", "sync"]), r.choice([0, 0, 1, 2, 3]), r.choice(["config", "config", "*"])])
                ops.append(["d", op])
                ops.append(["unfault"])
            elif j < .30 and crash:
                ops.append(["fault", r.choice(["kill", "kill", "torn", "ploss"]), r.choice(["mut", "mut", "wr"]), r.choice([0, 1, 2, 3, 4, 5, 6]), "*"])
                ops.append(["d", op])
                ops.append(["crash"])
            else:
                ops.append(["d", op])
        if any(o[0] == "fault" and o[1] == "ploss" for o in ops):       # unsynced data may be lost
            ops = [o for o in ops if o[0] not in ("w", "x?", "ck")]
        return {"sets": sets, "ops": ops, "bootcrash": [r.choice(["kill", "torn", "ploss"]), r.randint(0, 8)] if r.random() < .15 else None,
                "variant": "asan" if r.random() < .1 else "plain"}

    def bad(self, r, st, cl):
        s, c = r.choice(st), r.choice(cl or ["nocloud"])
        return r.choice([
            "alter storage %s set (region_size 77, refresh_wm 5, compression 'bzip')" % s,
            "alter storage %s set (refresh_wm 3, cloud_drop_local false, nosuch 1)" % s,
            "alter storage %s set (sync false, compression_level 4, uuid '00000000-0000-0000-0000-000000000001')" % s,
            "alter storage %s set (compression_level 6, region_size 0)" % s,
            "alter storage %s set (refresh_wm 9, cloud 'no such cloud')" % s,
            "alter storage %s set (refresh_wm 9" % s,
            "alter storage %s set (refresh_wm 'x')" % s,
            "alter storage %s rename to %s" % (s, s),
            "alter cloud %s set (url 'changed', nosuch 'x')" % c,
            "alter cloud %s set (login 'changed', type 'mock')" % c,
            "alter cloud %s rename to %s" % (c, c),
            "create cloud newc (type 'nosuch', url 'x')", "create cloud newc", "create storage newst (encryption 'xor')",
            "create storage newst (cloud 'no such cloud', region_size 5)", "create storage newst (encryption_key 'short')",
            "drop storage main", "alter storage main rename to m2", "drop storage nosuch", "drop cloud nosuch", "alter storage nosuch set (sync true)",
            "alter cloud nosuch set (debug true)", "alter storage nosuch rename to n2", "alter cloud nosuch rename to n2",
            "alter pipeline set %s (events 4), nosuch" % s, "alter pipeline set %s, main (events 1), %s" % (s, s), "alter pipeline set nosuch (events 1), main",
            "alter pipeline set %s (events 4), main (size 7), %s" % (s, s), "alter pipeline set main (events 4), %s (events 1), main (size 5)" % s,
            "alter pipeline set %s (events 1, nosuch 2), main" % s, "set interval to 0", "set interval to 'x'", "set compression to 5", "set serial to false",
            "set uuid to '11111111-0000-0000-0000-000000000000'", "set wal to false", "set nosuch to 1", "set storages to 'x'", "set wal_rotate_wm to true"])

    # ---------------------------------------------------------------- execution
    def run(self, case):
        sets = dict(case["sets"])
        cfg = dict(sets)
        w = Ddl(cfg)
        w.first(sets)
        if case.get("bootcrash"):
            w.line("track 1")
            w.line("fault %s mut %d * 28 7" % (case["bootcrash"][0], case["bootcrash"][1]))
            opening(w.s, cfg)
            w.line("crash 5" if case["bootcrash"][0] == "ploss" else "crash")
            w.s.new_session(None)
        w.line("track 1")
        opening(w.s, cfg)
        w.check()
        nth = 0
        for o in case["ops"]:
            k = o[0]
            if k == "d":
                w.ddl(o[1])
                w.check()
            elif k == "fault":
                w.line("fault %s %s %d %s 28 %d" % (o[1], o[2], o[3], o[4], nth * 7919 + 3), lambda line, res: setattr(w, "fault_on", True))
                nth += 1
            elif k == "unfault":
                w.line("fault off", lambda line, res: setattr(w, "fault_on", False))
            elif k == "crash":
                w.line("crash %d" % (nth * 31 + 1) if case_ploss(case, nth) else "crash")
                w.s.new_session(w.started)
                w.line("track 1", lambda line, res: setattr(w, "fault_on", False))
                opening(w.s, w.cfg, first=False)
                w.after_open()
                w.scan("scan after crash")
            else:
                w.op(o)
        w.new_process()
        w.scan("scan after restart")
        w.reopen()
        st = w.run(self.driver(case.get("variant", "plain")))
        st["nontrivial"] = st.get("definitions_changed", 0) >= 3
        return st

    def shrink_steps(self, case):
        for c in generic_shrinks(case):
            if len(c["ops"]) < len(case["ops"]):
                yield c
        for k in case["sets"]:
            yield dict(case, sets={a: b for a, b in case["sets"].items() if a != k})
        for i, o in enumerate(case["ops"]):
            if o[0] == "d" and o[1][0] in ("cc", "ca", "sc", "sa"):
                for j in range(len(o[1][3])):
                    op = o[1][:3] + [o[1][3][:j] + o[1][3][j + 1:]]
                    yield dict(case, ops=case["ops"][:i] + [["d", op]] + case["ops"][i + 1:])


def case_ploss(case, nth):
    fs = [o for o in case["ops"] if o[0] == "fault"]
    return nth and fs[nth - 1][1] == "ploss"
