"""Shared vocabulary: database configurations, operation lists, generators and the model walk."""
import bisect, json, os
from core import *

UUID = "00000000-0000-0000-0000-000000000000"

DEFCFG = {"interval": 1000, "workers": 0, "workers_upload": 0}


def opening(s, cfg, first=True, db=None, must=True):
    """script lines that create the handle, set the configuration and open the database"""
    for l in cfg.get("_pre", []):
        s.ok(l)
    s.ok("init")
    if first:
        st = dict(DEFCFG)
        st.update({k: v for k, v in cfg.items() if not k.startswith("_")})
        s.ok("x set uuid to '%s'" % UUID)
        for k, v in st.items():
            s.ok("x set %s to %s" % (k, fmt(v)))
    line = "open" + (" " + db if db else "")
    if must:
        s.ok(line)
    else:
        s.add(line)
    if first:
        for c in cfg.get("_ddl", []):
            s.ok("x " + c)


def fmt(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return "'%s'" % v
    return str(v)


def jparse(res):
    """result of a SHOW command -> python object"""
    if not res.startswith("ok "):
        raise Fail("show answered: " + res[:200])
    t = res[3:]
    r = []
    i = 0
    while i < len(t):
        if t[i] == "\\" and i + 1 < len(t):
            r.append({"n": "\n", "r": "\r"}.get(t[i + 1], t[i + 1]))
            i += 2
        else:
            r.append(t[i])
            i += 1
    try:
        return json.loads("".join(r), strict=False)
    except ValueError as e:
        raise Fail("invalid JSON from SHOW (%s): %s" % (e, t[:300]))


# --- the model walk --------------------------------------------------------------------------------

class World:
    """Turns abstract operations into script lines with their oracle (an ordered-map model)."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.s = Script()
        self.m = Map()
        self.interval = cfg.get("interval", DEFCFG["interval"])
        self.count = {}
        self.slots = {}

    def bump(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def start(self):
        opening(self.s, self.cfg)

    # writes
    def write(self, events):
        def cb(line, res):
            if not res.startswith("ok"):
                raise Fail("write refused: %s -> %s" % (line[:150], res[:200]))
            ids = [int(x) for x in res.split()[1:]]
            evs = [[i] + list(e[1:]) for i, e in zip(ids, events)]
            for e, i in zip(events, ids):
                if e[0] != AUTO and e[0] != i:
                    raise Fail("write changed id %d to %d" % (e[0], i))
            self.m.apply(evs)
            self.bump("writes")
            self.bump("events", len(evs))
        self.s.add("w " + " ".join(ev_text(e) for e in events), cb)

    def bulk(self, start, step, count, batch, key, kind, seed, ln):
        def cb(line, res):
            if res != "ok":
                raise Fail("write refused: %s -> %s" % (line[:150], res[:200]))
            for id, k, v in bulk_events(start, step, count, key, kind, seed, ln):
                self.m.put(id, k, v)
            self.bump("writes", (count + batch - 1) // max(1, batch))
            self.bump("events", count)
        self.s.add("wb %d %d %d %d %s %s %d %d" % (start, step, count, batch, key, kind, seed, ln), cb)

    # reads
    def scan(self, what="scan"):
        def cb(line, res):
            got = parse_scan(res)
            if got is None:
                raise Fail("%s failed: %s" % (what, res[:300]))
            want = self.m.list()
            if got != want:
                raise Fail("%s differs: %s" % (what, diff(got, want)))
            self.bump("scans")
            self.bump("scanned", len(got))
        self.s.add("scan", cb)

    def seek(self, id, key, limit=0):
        def cb(line, res):
            got = parse_scan(res)
            if got is None:
                raise Fail("seek failed: %s" % res[:300])
            want = self.m.list((id, key_bytes(key)))
            if limit:
                want = want[:limit]
            if got != want:
                raise Fail("cursor at (%d,%s) differs: %s" % (id, key, diff(got, want)))
            self.bump("seeks")
            if 0 < len(want) < len(self.m.d):
                self.bump("mid_seeks")
        self.s.add("seek %d %s %d" % (id, key, limit), cb)

    def cmd(self, text, must=True):
        if must:
            self.s.ok("x " + text)
        else:
            self.s.add("x " + text)
        self.bump("commands")

    def drain(self, n=24):
        self.s.add("until %d x service" % n)

    def refresh_all(self):
        self.cmd("checkpoint")
        self.drain(len_hint(self))

    def reopen(self):
        self.s.ok("close")
        opening(self.s, self.cfg, first=False)
        self.bump("reopens")

    def new_process(self, crash=False):
        if not crash:
            self.s.ok("close")
        self.s.new_session()
        opening(self.s, self.cfg, first=False)
        self.bump("reopens")

    def op(self, o):
        k = o[0]
        if k == "w":
            self.write(o[1])
        elif k == "wb":
            self.bulk(*o[1:])
        elif k == "scan":
            self.scan()
        elif k == "seek":
            self.seek(o[1], o[2], o[3] if len(o) > 3 else 0)
        elif k == "x":
            self.cmd(o[1])
        elif k == "x?":
            self.cmd(o[1], must=False)
        elif k == "ck":
            self.refresh_all()
        elif k == "drain":
            self.drain()
        elif k == "reopen":
            self.reopen()
        elif k == "newproc":
            self.new_process()
        elif k == "crash":
            self.new_process(crash=True)
        else:
            return False
        return True

    def run(self, driver, timeout=25):
        if os.environ.get("VERIF_SHOW"):
            out, err = driver.run(self.s.lines, timeout)
            o = 0
            for l in out:
                print("   ", l[:400])
            print(err[-3000:])
            print("\n".join("> " + l[:300] for l in self.s.lines))
            self.s.judge(out, err)
        else:
            self.s.execute(driver, timeout)
        return self.count


def len_hint(w):
    return 40


# --- generators --------------------------------------------------------------------------------------

INTERVALS = [1, 2, 3, 7, 10, 10, 64, 100, 100, 1000, 1000, 3000000, 1 << 31, 1 << 32, 1 << 33, 1 << 40, (1 << 62), (1 << 63) - 1]


def gen_key(r):
    k = r.random()
    if k < 0.45:
        return "-"
    if k < 0.75:
        n = r.choice([1, 1, 2, 3])
        return "".join(r.choice(["00", "01", "61", "62", "7f", "80", "ff"]) for _ in range(n))
    if k < 0.9:
        base = "6162636465"
        return base[:2 * r.randint(1, 5)] + r.choice(["", "00", "80", "ff"])
    if k < 0.96:
        return "r%d.%d" % (r.randint(0, 50), r.choice([8, 31, 127, 128, 200, 254, 255]))
    return "%02x" % r.randint(0, 255) * r.choice([1, 16, 255])


def gen_value(r, big=0.03):
    k = r.random()
    if k < 0.2:
        return "-"
    if k < 0.6:
        return "x" + bytes(r.randint(0, 255) for _ in range(r.randint(1, 8))).hex()
    if k < 0.6 + big:
        return "r%d.%d" % (r.randint(0, 1 << 32), r.choice([1000, 4000, 20000, 70000]))
    if k < 0.85:
        return "r%d.%d" % (r.randint(0, 1 << 32), r.randint(1, 200))
    return "c%02x%02x.%d" % (r.randint(0, 255), r.randint(0, 255), r.randint(1, 500))


class Ids:
    """a generator of ids with a per-case flavour"""

    def __init__(self, r, interval, flavour=None):
        self.r = r
        self.interval = interval
        self.flavour = flavour or r.choice(["dense", "dense", "gaps", "gaps", "parts", "wide", "mod32", "edges", "sign"])
        self.n = r.choice([20, 60, 200, 1000])
        self.bases = [r.randint(0, M64 - 1) for _ in range(3)]
        self.used = []

    def fresh(self):
        r = self.r
        f = self.flavour
        if f == "dense":
            x = r.randint(0, self.n)
        elif f == "gaps":
            x = r.randint(0, self.n) * r.choice([1, 3, 7])
        elif f == "parts":
            x = r.randint(0, 6) * self.interval + r.choice([0, 1, self.interval - 1, self.interval // 2, r.randint(0, self.interval - 1)])
        elif f == "wide":
            x = r.choice([r.randint(0, M64 - 1), r.choice(self.bases) + r.randint(0, 5)])
        elif f == "mod32":
            x = r.randint(0, 8) * (1 << 32) + r.randint(0, 3) + r.choice([0, 1 << 31])
        elif f == "sign":
            x = r.choice([0, 1 << 31, 1 << 32, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, 3 << 62]) + r.randint(-2, 2)
        else:
            x = r.choice([0, 1, 2, M64 - 1, M64 - 2, M64 - self.interval, 1 << 63, (1 << 63) - 1]) + r.randint(0, 2)
        return min(max(x, 0), M64 - 1)

    def pick(self):
        if self.used and self.r.random() < 0.35:
            return self.r.choice(self.used)
        x = self.fresh()
        self.used.append(x)
        return x


def gen_batch(r, ids, maxn=8, big=0.03, keys=True, dels=0.15):
    n = 1 if r.random() < 0.4 else r.randint(1, maxn)
    ev = []
    for _ in range(n):
        d = r.random() < dels
        e = [ids.pick(), gen_key(r) if keys else "-", "-" if d and r.random() < .7 else gen_value(r, big)]
        if d:
            e.append(1)
        ev.append(e)
    if len(ev) > 1 and r.random() < 0.2:
        ev.append(list(r.choice(ev)))   # the same key twice in one batch
    return ev


def gen_cfg(r, intervals=INTERVALS, mm=True):
    cfg = {"interval": r.choice(intervals)}
    if r.random() < 0.3:
        cfg["serial"] = r.random() < 0.5
    if r.random() < 0.25:
        cfg["wal_crc"] = True
    if mm and r.random() < 0.5:
        cfg["mm_page_size"] = r.choice([65536 * 2, 131072 * 2, 1 << 20])
    ddl = []
    if r.random() < 0.6:
        opts = []
        if r.random() < 0.7:
            opts.append("region_size %d" % r.choice([1, 60, 200, 1000, 4096]))
        if r.random() < 0.6:
            opts.append("compression '%s'" % r.choice(["", "lz4", "zstd"]))
        if r.random() < 0.3:
            opts.append("crc true")
        if r.random() < 0.2:
            opts.append("encryption 'aes'")
        if opts:
            ddl.append("alter storage main set (%s)" % ", ".join(opts))
    cfg["_ddl"] = ddl
    if r.random() < 0.12:
        cfg["_pre"] = ["chop %d" % r.randint(1, 1 << 60)]    # partial and interrupted reads and writes
    return cfg
