"""Histories over the whole system: several storages, clouds, pipelines, maintenance, drops, restarts
and crashes. Db is the model walk (see world.World), Layout/gen_ops the generators."""
from world import *

I63 = (1 << 63) - 1


def parts_of(res):
    """SHOW PARTITIONS -> list of dicts sorted by min (ids as unsigned)"""
    j = jparse(res)
    r = []
    for p in j:
        q = dict(p)
        q["min"] &= M64
        q["max"] &= M64
        r.append(q)
    return sorted(r, key=lambda p: p["min"])


class Db(World):
    """Model walk with alternatives (operations cut by a crash or an error) and partition drops."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.alts = None            # possible contents after a crash or a failed operation
        self.effects = {}           # line index -> function returning the alternatives to "nothing happened"
        self.parts = []             # last SHOW PARTITIONS
        self.cfg_open = None        # lines to run after init when reopening
        self.crashes = 0
        self.soft = False           # operations may fail (faults are armed)
        self.keep = False           # no drop of one of the copies (it may be the only one)
        self.armed = False

    # any line can be the one in flight when the process dies
    def line(self, text, cb=None, effect=None):
        if effect:
            self.effects[len(self.s.lines)] = effect
        self.s.add(text, cb)

    def started(self, crashed, pos):
        if not crashed:
            return
        self.crashes += 1
        self.bump("crashes")
        alts = self.alts if self.alts is not None else [self.m]
        eff = self.effects.get(pos)
        if eff:
            self.bump("crashes_in_effect")
            alts = alts + eff()
        self.alts = alts

    def settle(self, got, what):
        """the content was observed"""
        alts = self.alts if self.alts is not None else [self.m]
        for a in alts:
            if got == a.list():
                if self.alts is not None and len(self.alts) > 1:
                    self.bump("ambiguous")
                self.m = a
                self.alts = None
                return
        best = min(alts, key=lambda a: len(set(a.list()) ^ set(got)))
        n = len({tuple(a.list()) for a in alts})
        raise Fail("%s differs%s: %s" % (what, " from all %d possible contents, nearest" % n if n > 1 else "", diff(got, best.list())))

    def scan(self, what="scan"):
        def cb(line, res):
            got = parse_scan(res)
            if got is None:
                raise Fail("%s failed: %s" % (what, res[:300]))
            self.settle(got, what)
            self.bump("scans")
            self.bump("scanned", len(got))
        self.line("scan", cb)

    def seek(self, id, key, limit=0):
        def cb(line, res):
            if self.alts is not None:
                return
            got = parse_scan(res)
            if got is None and len(key_bytes(key)) > 255 and res.startswith("err"):
                self.bump("long_keys")
                return
            if got is None:
                raise Fail("seek failed: %s" % res[:300])
            want = self.m.list((id, key_bytes(key)))
            if limit:
                want = want[:limit]
            if got != want:
                raise Fail("cursor at (%d,%s) differs: %s" % (id, key, diff(got, want)))
            self.bump("seeks")
            if 0 < len(want) < len(self.m.d):
                self.bump("mid_seeks")
        self.line("seek %d %s %d" % (id, key, limit), cb)

    # writes
    def write(self, events, may_fail=False):
        def after(ids=None):
            m = self.m.copy()
            evs = events if ids is None else [[i] + list(e[1:]) for i, e in zip(ids, events)]
            m.apply(evs)
            return m

        def cb(line, res):
            assert self.alts is None or may_fail, "write before a scan after a crash"
            if not res.startswith("ok"):
                if may_fail:
                    self.bump("failed_writes")
                    return
                raise Fail("write refused: %s -> %s" % (line[:150], res[:200]))
            ids = [int(x) for x in res.split()[1:]]
            for e, i in zip(events, ids):
                if e[0] != AUTO and e[0] != i:
                    raise Fail("write changed id %d to %d" % (e[0], i))
            self.m = after(ids)
            self.bump("writes")
            self.bump("events", len(events))
        self.line("w " + " ".join(ev_text(e) for e in events), cb, lambda: [after()])

    def bulk(self, start, step, count, batch, key, kind, seed, ln):
        evs = list(bulk_events(start, step, count, key, kind, seed, ln))

        def prefix(n):
            m = self.m.copy()
            for id, k, v in evs[:n]:
                m.put(id, k, v)
            return m

        def cb(line, res):
            if res != "ok":
                raise Fail("write refused: %s -> %s" % (line[:150], res[:200]))
            self.m = prefix(count)
            self.bump("writes", (count + batch - 1) // max(1, batch))
            self.bump("events", count)
        self.line("wb %d %d %d %d %s %s %d %d" % (start, step, count, batch, key, kind, seed, ln), cb,
                  lambda: [prefix(min(n, count)) for n in range(batch, count + batch, batch)])

    # commands
    def cmd(self, text, must=True):
        def cb(line, res):
            if not res.startswith("ok"):
                if must and not self.soft:
                    raise Fail("'%s' answered: %s" % (line[:120], res[:300]))
                self.bump("refused")
            else:
                self.bump("commands")
        self.line("x " + text, cb)

    def show_parts(self):
        def cb(line, res):
            self.parts = parts_of(res)
        self.line("x show partitions", cb)

    def drop(self, text, sel):
        """sel(parts) -> the partitions that the command drops"""
        self.show_parts()

        def after(k=None):
            m = self.m.copy()
            for p in sel(self.parts)[:k]:
                m.drop(p["min"], p["max"])
            return m

        def cb(line, res):
            if not res.startswith("ok"):
                if self.soft:
                    self.bump("refused")
                    self.alts = (self.alts or [self.m]) + alts()
                    return
                raise Fail("'%s' answered: %s" % (line[:120], res[:300]))
            n = len(self.m.d)
            self.m = after()
            self.bump("drops")
            if len(self.m.d) < n:
                self.bump("drops_with_data")

        def alts():
            return [after(k) for k in range(1, len(sel(self.parts)) + 1)]
        self.line("x " + text, cb, alts)

    def new_process(self, crash=False, rnd=None):
        if not crash:
            self.s.ok("close")
        self.s.new_session(self.started)
        opening(self.s, self.cfg, first=False)
        self.after_open()
        self.bump("reopens")

    def after_open(self):
        pass

    def reopen(self):
        self.s.ok("close")
        opening(self.s, self.cfg, first=False)
        self.after_open()
        self.bump("reopens")

    def op(self, o):
        k = o[0]
        if k == "refresh":
            self.cmd("refresh partition if exists %d" % o[1])
        elif k == "refreshr":
            self.cmd("refresh partitions between %d and %d" % (o[1], o[2]))
        elif k == "move":
            self.cmd("move partition if exists %d into %s" % (o[1], o[2]))
        elif k == "mover":
            self.cmd("move partitions between %d and %d into %s" % (o[1], o[2], o[3]))
        elif k == "upload":
            self.cmd("upload partition if exists %d if cloud" % o[1], must=False)
        elif k == "download":
            self.cmd("download partition if exists %d if cloud" % o[1])
        elif k == "offload":        # move to a storage with cloud, keep the cloud copy only
            self.cmd("move partition if exists %d into %s" % (o[1], o[2]))
            self.cmd("upload partition if exists %d if cloud" % o[1], must=False)
            if not self.soft and not self.keep:
                self.cmd("drop partition if exists %d on storage" % o[1])
        elif k == "cloudoff":       # bring back, drop the cloud copy
            self.cmd("download partition if exists %d if cloud" % o[1])
            if not self.soft and not self.keep:
                self.cmd("drop partition if exists %d on cloud" % o[1])
        elif k == "drop":
            self.drop("drop partition if exists %d" % o[1], lambda ps: [p for p in ps if p["min"] <= o[1] <= p["max"]])
        elif k == "dropr":
            def sel(ps):
                r = []
                for p in ps:
                    if p["max"] < o[1]:
                        continue
                    if p["min"] < o[1] or p["max"] > o[2]:
                        break
                    r.append(p)
                return r
            self.drop("drop partitions between %d and %d" % (o[1], o[2]), sel)
        elif k == "rebalance":
            self.drain(30)
            self.cmd("rebalance")
        elif k == "seekm":
            self.seek(o[1], o[2], o[3])
        else:
            return super().op(o)
        return True


class Layout:
    """storages, clouds and pipeline of a case; tracked through the generated operations"""

    def __init__(self, r, cfg, nmax=3, cloud=0.45, pipeline=0.0, enc=True, drop_local=True, sync=True, absolute=False):
        self.sync = sync
        self.absolute = absolute
        self.r = r
        self.names = ["main"]
        self.cloudy = []
        self.has_cloud = r.random() < cloud
        ddl = cfg.setdefault("_ddl", [])
        if self.has_cloud:
            ddl.append("create cloud cl (type 'mock')")
        for i in range(r.randint(1 if self.has_cloud else 0, nmax)):
            n = "s%d" % i
            o = []
            if self.has_cloud and r.random() < 0.7:
                o.append("cloud 'cl'")
                self.cloudy.append(n)
                if drop_local and r.random() < 0.3:
                    o.append("cloud_drop_local true")
            o += self.options(enc)
            ddl.append("create storage %s%s" % (n, " (%s)" % ", ".join(o) if o else ""))
            self.names.append(n)
        if r.random() < pipeline:
            order = self.names[:]
            r.shuffle(order)
            t = []
            for i, n in enumerate(order[:r.randint(1, len(order))]):
                lim = []
                if True:
                    lim.append(r.choice(["partitions %d" % r.randint(0, 4), "events %d" % r.choice([0, 1, 5, 50]),
                                         "size %d" % r.choice([0, 100, 2000]), "duration %d" % r.choice([0, 1000, 10 ** 9])]))
                t.append((n, lim))
            t[-1] = (t[-1][0], [])
            ddl.append("alter pipeline set " + ", ".join(n + (" (%s)" % ", ".join(l) if l else "") for n, l in t))

    def options(self, enc=True, path=True):
        r = self.r
        o = []
        if r.random() < 0.5:
            o.append("region_size %d" % r.choice([1, 60, 200, 1000, 8192]))
        if r.random() < 0.6:
            o.append("compression '%s'" % r.choice(["", "lz4", "zstd"]))
        if r.random() < 0.2:
            o.append("compression_level %d" % r.choice([0, 1, 3, 9, 19]))
        if r.random() < 0.3:
            o.append("crc true")
        if enc and r.random() < 0.25:
            o.append("encryption 'aes'")
        if self.sync and r.random() < 0.2:
            o.append("sync %s" % r.choice(["true", "false"]))
        if r.random() < 0.1:
            o.append("refresh_wm %d" % r.choice([1, 100, 1 << 20]))
        if path and r.random() < 0.15:
            o.append("path '%s'" % self.path())
        return o

    def path(self):
        return self.r.choice(["pp", "pp2", ".hidden"] + (["@ROOT@/ext", "@ROOT@/ext", "@ROOT@/db/in"] if self.absolute else []))

    def storage(self):
        return self.r.choice(self.names)


def gen_maint(r, ids, lay, drops=0.0, alters=True):
    """one maintenance operation (never changes the content unless it is a drop)"""
    def pid():
        u = [x for x in ids.used if x <= I63]
        return r.choice(u) if u else 0

    def lo_hi():
        if r.random() < 0.5:
            return 0, I63
        iv = ids.interval
        a = pid()
        a -= a % iv
        b = min(I63, a + iv * r.randint(1, 4) - 1)
        return a, b
    k = r.random()
    if drops and r.random() < drops:
        if r.random() < 0.75:
            return ["drop", pid()]
        a, b = lo_hi()
        return ["dropr", a, b]
    if k < 0.17:
        return ["refresh", pid()]
    if k < 0.22:
        return ["refreshr", *lo_hi()]
    if k < 0.34:
        return ["move", pid(), lay.storage()]
    if k < 0.38:
        return ["mover", *lo_hi(), lay.storage()]
    if k < 0.52:
        if lay.cloudy:
            j = r.random()
            if j < 0.4:
                return ["offload", pid(), r.choice(lay.cloudy)]
            if j < 0.6:
                return ["upload", pid()]
            if j < 0.8:
                return ["download", pid()]
            return ["cloudoff", pid()]
        return ["move", pid(), lay.storage()]
    if k < 0.60:
        return ["ck"]
    if k < 0.66:
        return ["drain"]
    if k < 0.70:
        return ["rebalance"]
    if k < 0.78 and alters:
        j = r.random()
        if r.random() < 0.12:       # refused unless the storage is empty
            return ["x?", "alter storage %s set (path '%s')" % (lay.storage(), r.choice([lay.path(), ""]))]
        if j < 0.6:
            o = lay.options(False, path=False)
            if o:
                return ["x?" if any("crc" in x for x in o) else "x", "alter storage %s set (%s)" % (lay.storage(), ", ".join(o))]
            return ["drain"]
        if j < 0.75 and len(lay.names) > 1:
            i = r.randint(1, len(lay.names) - 1)
            old, new = lay.names[i], "n%d" % r.randint(0, 10 ** 6)
            if new not in lay.names:
                lay.names[i] = new
                if old in lay.cloudy:
                    lay.cloudy[lay.cloudy.index(old)] = new
                return ["x", "alter storage %s rename to %s" % (old, new)]
        if j < 0.9:
            return ["x", "set wal_rotate_wm to %d" % r.choice([1, 100, 1000, 1 << 20])]
        return ["x", "set compression to '%s'" % r.choice(["", "lz4", "zstd"])]
    if k < 0.88:
        return ["x", r.choice(['debug "wal_create"', 'debug "wal_gc"', 'debug "memory_gc"', 'debug "wal_gc"'])]
    if k < 0.92:
        return ["x", r.choice(["show all", "show partitions", "show storages", "show wal", "show memory"])]
    if k < 0.97:
        return ["reopen"]
    return ["newproc"]
