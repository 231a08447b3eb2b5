from hist import *

KW = ("true false us microsecond microseconds ms millisecond milliseconds sec second seconds min minute minutes hr hour hours day days week weeks month "
      "months year years kb kib k mb mib m gb gib g tb tib t set reset to show all config checkpoint service create storage storages partition partitions "
      "if not exists drop pipeline alter rename move between and into refresh rebalance on cloud clouds download upload verbose debug wal memory").split()

_T = {"us": 1, "ms": 1000, "sec": 10 ** 6, "min": 60 * 10 ** 6, "hr": 3600 * 10 ** 6, "day": 86400 * 10 ** 6, "week": 7 * 86400 * 10 ** 6,
      "month": 30 * 86400 * 10 ** 6, "year": 365 * 86400 * 10 ** 6}
UNITS = {"us": 1, "microsecond": 1, "microseconds": 1, "ms": 1000, "millisecond": 1000, "milliseconds": 1000,
         "sec": _T["sec"], "second": _T["sec"], "seconds": _T["sec"], "min": _T["min"], "minute": _T["min"], "minutes": _T["min"],
         "hr": _T["hr"], "hour": _T["hr"], "hours": _T["hr"], "day": _T["day"], "days": _T["day"], "week": _T["week"], "weeks": _T["week"],
         "month": _T["month"], "months": _T["month"], "year": _T["year"], "years": _T["year"],
         "kb": 10 ** 3, "kib": 1 << 10, "k": 1 << 10, "mb": 10 ** 6, "mib": 1 << 20, "m": 1 << 20, "gb": 10 ** 9, "gib": 1 << 30, "g": 1 << 30,
         "tb": 10 ** 12, "tib": 1 << 40, "t": 1 << 40}

SHOWS = ["memory", "wal", "clouds", "storages", "pipeline", "partitions", "all", "config"]
VARS = ["interval", "wal_rotate_wm", "compression", "compression_level", "workers", "serial", "mm_limit_behaviour", "version", "test_int", "test_string", "test_bool"]
NAMES = ["a", "b", "s0", "_x", "y.z$1", "Main2"]


def K(*w):
    return [["k", x] for x in w]


def N(n):
    return [["n", n]]


def I(n):
    return [["i", n]]


def P(c):
    return [["p", c]]


def S(s):
    return [["s", s]]


def quotes(v):
    """the quotes which can hold the raw text: a quote inside must follow a backslash (which stays in the value)"""
    ok = []
    for c in "'\"":
        slash = False
        for x in v:
            if x == c and not slash:
                break
            slash = x == "\\" and not slash
        else:
            if not slash:
                ok.append(c)
    return ok


def raw(r):
    """text of a string with escapes"""
    while True:
        v = "".join(r.choice(["\\'", "\\'", '\\"', '\\"', "\\\\", "a", " ", "#", ",", ")", "(", "%s", "'", '"', "\\n", "9", "\t"]) for _ in range(r.choice([1, 1, 2, 3, 8])))
        if quotes(v):
            return v


class Gram:
    """commands as token lists"""

    def __init__(self, r, ids):
        self.r = r
        self.ids = ids

    def name(self):
        return N(self.r.choice(NAMES[:4] + ["main"] if self.r.random() < .9 else NAMES))

    def num(self, small=False):
        r = self.r
        if self.ids.used and r.random() < .5:
            x = r.choice(self.ids.used)
            if x <= I63:
                return I(x)
        u = r.choice(list(UNITS.values()))
        n = r.choice([0, 1, 2, 3, 10, 100])
        if small:
            return I(r.choice([0, 1, 3, 10, 1024, 4096, 1000 * 60]))
        return I(n * u)

    def opts(self, pairs, empty=True):
        """parenthesized options"""
        r = self.r
        t = P("(")
        for i, (n, v) in enumerate(pairs):
            if i:
                t += P(",")
            t += N(n) if n not in ("cloud", "partitions", "debug") else [["o", n]]
            t += v
        return t + P(")")

    def storage_opts(self, alter=False):
        r = self.r
        c = {"cloud": S("b"), "cloud_drop_local": K(r.choice(["true", "false"])), "sync": K(r.choice(["true", "false"])),
             "crc": K(r.choice(["true", "false"])), "refresh_wm": I(r.choice([1 << 10, 3 << 20, 40 * 10 ** 6])),
             "region_size": I(r.choice([100, 1 << 10, 128 << 10, 4000])), "compression": S(r.choice(["", "lz4", "zstd", "none"] if r.random() < .9 else ["foo"])),
             "compression_level": I(r.choice([0, 1, 3])), "encryption": S(r.choice(["", "none", "aes"])),
             "encryption_key": S(r.choice(["k" * 32, "0123456789abcdef" * 2, ""])), "path": S(r.choice(["", "p1", "p 2"])),
             "uuid": S("11111111-2222-3333-4444-%012d" % r.randint(0, 5) if r.random() < .8 else r.choice(["", "1", "11111111-2222-3333-4444-00000000000", "1" * 36, "11111111-2222-3333-4444-00000000000g"]))}
        ks = r.sample(sorted(c), r.choice([0 if not alter else 1, 1, 2, 3]))
        if alter:
            ks = [k for k in ks if k != "uuid"] or ["sync"]
        if "cloud" in ks and r.random() < .5:
            ks.remove("cloud")
        return self.opts([(k, c[k]) for k in ks]) if ks else []

    def command(self):
        r = self.r
        ife = K("if", "exists") if r.random() < .4 else []
        ifn = K("if", "not", "exists") if r.random() < .4 else []
        k = r.randint(0, 23)
        if k == 0:
            t = K("show")
            n = r.choice([1, 1, 2, 4])
            for i in range(n):
                if i:
                    t += P(",")
                j = r.random()
                if j < .5:
                    t += K(r.choice(SHOWS))
                elif j < .6:
                    t += K("storage") + self.name()
                elif j < .7:
                    t += K("partition") + self.num()
                elif j < .75:
                    t += K("partitions") + self.name()
                elif j < .8:
                    t += K("cloud") + self.name()
                elif j < .9:
                    t += K(r.choice(["all", "config"])) + N(r.choice(VARS))
                else:
                    t += N(r.choice(VARS))
                if r.random() < .15:
                    t += K("debug")
            return t
        if k == 1:
            n, v = r.choice([("wal_rotate_wm", self.num()), ("compression", S(r.choice(["", "lz4", "zstd"]))), ("compression_level", I(r.choice([0, 1, 9]))),
                             ("test_int", self.num()), ("test_bool", K(r.choice(["true", "false"]))), ("test_string", S(r.choice(["", "x", "a b # c", "it is", "{}%s"]) if r.random() < .6 else raw(r))),
                             ("error_upload", K("false")), ("workers", I(2)), ("nosuch", I(1)), ("test_int", S("1")), ("interval", I(0))])
            return K("set") + N(n) + K("to") + v
        if k == 2:
            return K(r.choice(["checkpoint", "service", "service", "rebalance"]))
        if k == 3:
            return K("debug") + S(r.choice(["wal_create", "wal_gc", "wal_read", "memory_gc", "nosuch"]))
        if k in (4, 5):
            return K("create", "storage") + ifn + self.name() + self.storage_opts()
        if k == 6:
            return K("drop", "storage") + ife + self.name()
        if k in (7, 8):
            return K("alter", "storage") + ife + self.name() + K("set") + self.storage_opts(True)
        if k == 9:
            return K("alter", "storage") + ife + self.name() + K("rename") + (K("to") if r.random() < .8 else []) + self.name()
        if k == 10:
            p = [("type", S(r.choice(["mock", "mock", "mock", "foo"])))]
            if r.random() < .4:
                p.append((r.choice(["url", "login", "password", "access_key", "secret_key"]), S(r.choice(["", "http://127.0.0.1:1", "a'b" if r.random() < .3 else "ab"]) if r.random() < .7 else raw(r))))
            if r.random() < .2:
                p.append(("debug", K("false")))
            r.shuffle(p)
            return K("create", "cloud") + ifn + self.name() + self.opts(p)
        if k == 11:
            return K("drop", "cloud") + ife + self.name()
        if k == 12:
            if r.random() < .5:
                return K("alter", "cloud") + ife + self.name() + K("rename") + (K("to") if r.random() < .8 else []) + self.name()
            return K("alter", "cloud") + ife + self.name() + K("set") + self.opts([(r.choice(["url", "login", "password"]), S(r.choice(["", "zz"])))])
        if k == 13:
            if r.random() < .2:
                return K("alter", "pipeline", "reset")
            t = K("alter", "pipeline", "set")
            ns = [self.name() for _ in range(r.choice([1, 2, 2, 3]))]
            for i, n in enumerate(ns):
                if i:
                    t += P(",")
                t += n
                if i + 1 < len(ns) or r.random() < .2:
                    c = {"partitions": I(r.choice([0, 1, 2, 5])), "size": I(r.choice([0, 1 << 10, 5 << 20, 10 ** 6])), "events": I(r.choice([0, 1, 5, 1000])),
                         "duration": I(r.choice([0, 365 * 86400 * 10 ** 6, 2 * 30 * 86400 * 10 ** 6]))}
                    ks = r.sample(sorted(c), r.choice([1, 1, 2]))
                    t += self.opts([(q, c[q]) for q in ks])
            return t
        if k == 14:
            a = r.randint(0, 1 << 30) * 7
            t = K("create", "partition") + I(a)
            return t + (I(a + r.choice([0, 1, 1000, 10 ** 6, 1 << 30])) if r.random() < .8 else [])
        on = K("on", r.choice(["storage", "cloud"])) if r.random() < .3 else []
        ifc = K("if", "cloud") if r.random() < .6 else []
        if k == 15:
            return K("drop", "partition") + ife + self.num() + on
        lo, hi = self.num(), self.num()
        btw = K("between") + lo + K("and") + hi
        if k == 16:
            return K("drop", "partitions") + btw + on
        if k == 17:
            return K("move", "partition") + ife + self.num() + K("into") + self.name()
        if k == 18:
            return K("move", "partitions") + btw + K("into") + self.name()
        if k == 19:
            return K("refresh", "partition") + ife + self.num()
        if k == 20:
            return K("refresh", "partitions") + btw
        c = r.choice(["download", "upload"])
        if k == 21:
            return K(c, "partition") + ife + self.num() + ifc
        if k == 22:
            return K(c, "partitions") + btw + ifc
        return K("service")


def render(toks):
    out = []
    for t, v in toks:
        if t == "s":
            c = quotes(v)[0]
            v = c + v + c
        out.append(str(v))
    return " ".join(out)


def space(r, need):
    k = r.random()
    if not need and k < .4:
        return ""
    if k < .6:
        return " "
    s = "".join(r.choice([" ", "\t", "\n", "\r\n", "\v", "\f", "  "]) for _ in range(r.randint(1, 4)))
    if k > .85:
        s = r.choice(["", " "]) + "#" + r.choice(["", " comment", " drop cloud '", " \" 1 2 #", "()"]) + "\n" + r.choice(["", "\t", "# again\n"])
        if s[0] == "#" and need:
            s = " " + s
    return s


def case_of(r, w):
    k = r.random()
    if k < .3:
        return w
    if k < .6:
        return w.upper()
    return "".join(c.upper() if r.random() < .5 else c for c in w)


def respell(r, toks):
    """another spelling of the same token list"""
    out = space(r, False)
    prev = None
    for t, v in toks:
        if t == "k":
            s = case_of(r, v)
        elif t == "i":
            us = [u for u, m in UNITS.items() if v and v % m == 0]
            if us and r.random() < .7:
                u = r.choice(us)
                s = str(v // UNITS[u]) + space(r, False) + case_of(r, u)
            else:
                s = "0" * r.choice([0, 0, 0, 1, 5]) + str(v)
        elif t == "s":
            c = r.choice(quotes(v))
            s = c + v + c
        else:
            s = str(v)
        if prev is not None:
            word = (prev[-1].isalnum() or prev[-1] in "_$.") and (s[0].isalnum() or s[0] in "_$.")
            out += space(r, word)
        out += s
        prev = s
    out += space(r, False)
    if r.random() < .2:
        out += "#" + r.choice(["", " end", "''"])
    return out


def mutate(r, toks, other):
    """bytes near a command"""
    toks = [list(t) for t in toks]
    k = r.random()
    if k < .5:
        for _ in range(r.choice([1, 1, 2, 3])):
            j = r.random()
            i = r.randint(0, max(0, len(toks) - 1)) if toks else 0
            if j < .2 and toks:
                del toks[i]
            elif j < .35 and toks:
                toks.insert(i, list(toks[i]))
            elif j < .5 and len(toks) > 1:
                x = r.randint(0, len(toks) - 1)
                toks[i], toks[x] = toks[x], toks[i]
            elif j < .7 and toks:
                toks[i] = r.choice([["k", r.choice(KW)], ["n", r.choice(NAMES)], ["i", r.choice([0, 1, I63, M64, 1 << 70])], ["s", "x" * r.choice([0, 1, 31, 33, 300])],
                                    ["p", r.choice("(),;.*-+=<>[]{}!@#$%^&|\\/?~`:")], ["r", r.choice(["1.5", "1e5", "1e999", "0.0.0", "1e", "9" * 40, "9" * 400 + ".1", "0x10"])]])
            elif j < .85:
                toks[i:i] = [["k", r.choice(KW)]]
            else:
                x = r.randint(0, max(0, len(other)))
                toks = toks[:i] + [list(t) for t in other[x:]]
        b = "".join((render([t]) if t[0] != "r" else t[1]) + r.choice([" ", " ", " ", ""]) for t in toks).encode()
    elif k < .8:
        b = bytearray(render(toks).encode())
        for _ in range(r.choice([1, 1, 2, 4])):
            i = r.randint(0, len(b))
            j = r.random()
            if j < .3 and b:
                del b[i:i + r.choice([1, 1, 3])]
            elif j < .6:
                b[i:i] = bytes([r.choice([39, 34, 40, 41, 44, 35, 92, 10, 9, 48, 57, 45, 46, 95, 36, 101, 1, 127, 128, 255, r.randint(1, 255)])]) * r.choice([1, 1, 2, 100])
            elif i < len(b):
                b[i] = r.randint(1, 255)
        b = bytes(b)
    elif k < .9:
        b = bytes(r.randint(1, 255) for _ in range(r.choice([1, 2, 5, 30, 200])))
    elif k < .95:
        w = r.choice(["(", "show ", "'", "\\", "a", "1", "#", "create storage ", "show all,", "1 ", ",", "_", "9", "if ", "1 us "])
        b = (r.choice(["", "show ", "set test_string to '", "create storage a (", "alter pipeline set a, "]) + w * r.choice([10, 1000, 20000])).encode()
    else:
        n = r.choice([30, 100, 126, 127, 128, 129, 255, 256, 1000, 4000, 5000, 20000])
        x = r.choice(["a" * n, "%s" * (n // 2), "'" + "b" * n + "'", "1" * n])
        b = r.choice(["create storage %s", "create cloud %s (type 'mock')", "set %s to 1", "show %s", "drop storage %s", "create storage z (path %s)", "alter pipeline set %s",
                      "create cloud %s", "%s", "debug %s", "move partition 1 into %s", "set test_string to %s", "create storage z (cloud %s)", "drop partition %s"])
        b = b.replace("%s", x).encode()
    b = b.replace(b"\0", b" ")
    low = bytes(b).lower()
    # paths stay inside of the scratch directory; no huge amount of partitions on purpose
    if b"path" in low:
        b = b.replace(b"/", b"_").replace(b"..", b"__")
    if b"interval" in low or b"s3" in low:
        b = b"show interval"
    return bytes(b)


MASK = re.compile(r'\\"|"(uuid|directory|created|refreshed)": ("[^"]*"|\d+)|\[\d+, \d+, \d+, \d+\]')
PROBE = ["show storages", "show clouds", "show pipeline", "show all"]


def norm(res):
    if res.startswith("err"):
        res = res.lower()       # messages quote words as they were spelled
    return MASK.sub(lambda m: m.group(1) or "", res)


class Check(Property):
    id = "C14"
    quick = 8000
    thorough = 120000
    rule = ("two kinds of case. Spelling: up to 14 commands generated from the grammar, run on one database as is and on a twin with other "
            "keyword case, white space, comments, quotes and units; every answer, all definitions, config.json and the events must agree (and "
            "a list of SHOWs must answer the array of the single answers, a unit the literal product). Junk: up to 14 commands mutated by "
            "token and by byte, random bytes, very long names and numbers under AddressSanitizer; every answer is ok or a non-empty error, a "
            "rejected command leaves definitions and events as they were, and afterwards the database still writes, closes and opens; "
            "non-trivial: at least one command succeeded and one was refused (junk), or three succeeded (spelling)")
    assumptions = ["one thread, no background workers; the interval is 2^57 so that no range creates more than a few dozen partitions; storage paths are relative"]
    variants = ["plain", "asan"]

    def gen(self, r, tier):
        ids = Ids(r, 1 << 57, r.choice(["dense", "parts", "gaps"]))
        cfg = {"interval": 1 << 57}
        g = Gram(r, ids)
        kind = "spell" if r.random() < .45 else "junk"
        ops = []
        for _ in range(r.choice([0, 1, 2])):
            ops.append(["w", [[ids.pick(), gen_key(r), gen_value(r)] for _ in range(r.choice([1, 4]))]])
        pre = ["create cloud b (type 'mock')", "create storage a (compression 'lz4')", "create storage s0 (cloud 'b')", "alter pipeline set a (events 5), main"]
        for c in pre:
            if r.random() < .4:
                ops.append(["c", c])
        for _ in range(r.randint(2, 14)):
            t = g.command()
            if kind == "spell":
                k = r.random()
                if k < .12:
                    ops.append(["lit", r.choice(["test_int", "wal_rotate_wm"]), r.randint(0, 50), r.choice(sorted(UNITS)), r.randint(0, 1 << 30)])
                elif k < .15:
                    ops.append(["str", raw(r), r.randint(0, 1 << 30)])
                elif k < .22:
                    ops.append(["list", [r.choice(["memory", "wal", "clouds", "storages", "pipeline", "partitions", "all", "storage main", "storages debug", "partitions main debug"] + VARS) for _ in range(r.randint(2, 5))]])
                else:
                    ops.append(["s", render(t), respell(r, t)])
            elif r.random() < .2:
                ops.append(["c", render(t)])
            else:
                ops.append(["j", mutate(r, t, g.command()).hex()])
        return {"cfg": cfg, "kind": kind, "ops": ops, "variant": "asan" if r.random() < (.6 if kind == "junk" else .1) else "plain"}

    def run(self, case):
        return (self.spell if case["kind"] == "spell" else self.junk)(case)

    def xh(self, text):
        b = text if isinstance(text, bytes) else text.encode()
        return "xh " + (b.hex() or "20")

    def spell(self, case):
        s = Script()
        n = {"ok": 0, "err": 0, "commands": 0}
        opening(s, case["cfg"])
        s.ok("use 1")
        opening(s, case["cfg"], db="db2")
        for i, l in enumerate(s.lines):
            if i > 1 and l == "init":
                s.lines[i] = "init 1"
        s.ok("use 0")
        keep = {}

        def first(line, res):
            keep["r"] = norm(res)
            keep["raw"] = res

        def second(spelling):
            def cb(line, res):
                n["commands"] += 1
                n["ok" if res.startswith("ok") else "err"] += 1
                if norm(res) != keep["r"]:
                    raise Fail("another spelling answers differently: %r -> %s instead of %s" % (spelling[:200], norm(res)[:300], keep["r"][:300]))
            return cb

        def both(a, b):
            s.add("use 0")
            s.add(self.xh(a), first)
            s.add("use 1")
            s.add(self.xh(b), second(b))
        for o in case["ops"]:
            if o[0] == "w":
                l = "w " + " ".join(ev_text(e) for e in o[1])
                for h in (0, 1):
                    s.add("use %d" % h)
                    s.ok(l)
            elif o[0] == "c":
                both(o[1], o[1])
            elif o[0] == "s":
                both(o[1], o[2])
            elif o[0] == "lit":
                r = random.Random(o[4])
                v = o[2] * UNITS[o[3]]
                s.add("use 0")
                s.ok(self.xh("set %s to %d%s%s" % (o[1], o[2], r.choice(["", " ", "\t"]), case_of(r, o[3]))))
                s.add("x show " + o[1], self.exact("ok %d" % v, "%d %s" % (o[2], o[3])))
                s.add("use 1")
                s.ok("x set %s to %d" % (o[1], v))
            elif o[0] == "str":
                r = random.Random(o[2])
                c = r.choice(quotes(o[1]))

                def shown(line, res, v=o[1]):
                    if jparse(res) != v:
                        raise Fail("string %r has the value %s" % (v, res))
                s.add("use 0")
                s.ok(self.xh("set test_string to%s%s%s%s%s" % (space(r, False), c, o[1], c, space(r, False))))
                s.add("x show test_string", shown)
                s.add("use 1")
                s.ok(self.xh("set test_string to %s%s%s" % (c, o[1], c)))
            elif o[0] == "list":
                s.add("use 0")
                got = []
                for x in o[1]:
                    s.add("x show " + x, lambda line, res, got=got: got.append(jparse(res)))

                def cb(line, res, got=got):
                    j = jparse(res)
                    n["commands"] += 1
                    if j != (got if len(got) != 1 else got[0]):
                        raise Fail("list of SHOWs '%s' answers %s instead of %s" % (line, json.dumps(j)[:300], json.dumps(got)[:300]))
                s.add("x show " + ", ".join(o[1]), cb)
        for p in PROBE + ["show partitions"]:
            both(p, p)
        s.add("use 0")
        s.add("scan", first)
        s.add("use 1")
        s.add("scan", second("scan"))
        u = re.compile(rb'"(uuid|encryption_key)":\s*"[^"]*"')

        def cfgtext(res):
            return u.sub(rb"\1", bytes.fromhex(res[3:].strip())).decode(errors="replace")

        def c1(line, res):
            keep["c"] = cfgtext(res)

        def c2(line, res):
            if cfgtext(res) != keep["c"]:
                raise Fail("another spelling saves other definitions: %s instead of %s" % (cfgtext(res)[-500:], keep["c"][-500:]))
        s.add("cat db/config.json", c1)
        s.add("cat db2/config.json", c2)
        s.ok("close")
        s.add("use 0")
        s.ok("close")
        self.exec(case, s)
        n["spellings"] = 1
        n["nontrivial"] = n["ok"] >= 3
        return n

    def exact(self, want, what):
        def cb(line, res):
            if res != want:
                raise Fail("%s has the value %s instead of %s" % (what, res, want))
        return cb

    def exec(self, case, s):
        w = World({})
        w.s = s
        w.run(self.driver(case.get("variant", "plain")))

    def junk(self, case):
        s = Script()
        n = {"ok": 0, "err": 0, "commands": 0, "junk": 1, "accepted_junk": 0}
        opening(s, case["cfg"])
        st = {"probe": {}, "scan": None, "last": None, "text": b""}

        def probe(rebase=False):
            for p in PROBE:
                s.add("x " + p, lambda line, res, p=p: seen(p, self.defs(p, res)))
            s.add("scan", lambda line, res: seen_scan(res))

        def seen(p, v):
            old = st["probe"].get(p)
            if old is not None and st["last"] == "err" and v != old:
                raise Fail("rejected command %r changed '%s': %s instead of %s" % (st["text"][:100], p, str(v)[:400], str(old)[:400]))
            st["probe"][p] = v

        def seen_scan(res):
            got = parse_scan(res)
            if got is None:
                raise Fail("scan after %r failed: %s" % (st["text"][:100], res[:200]))
            if st["scan"] is not None and got != st["scan"]:
                low = st["text"].lower()
                drops = any(x in low for x in (b"drop", b"rebalance", b"service"))
                if st["last"] == "err" and not b"between" in low or not drops or not set(got) <= set(st["scan"]):
                    raise Fail("%s command %r changed the events: %s" % (st["last"], st["text"][:100], diff(got, st["scan"])))
            st["scan"] = got

        def cmd(b):
            def cb(line, res):
                st["last"] = res[:3].strip()
                st["text"] = b
                n["commands"] += 1
                if res.startswith("ok"):
                    n["ok"] += 1
                    low = b.lower()
                    if b"drop" in low and b"partition" in low and (b"storage" in low or b"cloud" in low):
                        st["last_copy"] = True
                elif res.startswith("err") and len(res.strip()) > 4:
                    n["err"] += 1
                else:
                    raise Fail("command %r answered %r: no error message" % (b[:100], res[:100]))
            s.add(self.xh(b), cb)
            probe()
        for o in case["ops"]:
            if o[0] == "w":
                s.ok("w " + " ".join(ev_text(e) for e in o[1]))
                st["scan"] = None
            elif o[0] == "c":
                cmd(o[1].encode())
            else:
                if not n["commands"]:
                    pass
                probe()
                cmd(bytes.fromhex(o[1]))
        for e in ("refresh_1", "refresh_2", "refresh_3", "wal", "upload", "download"):
            s.ok("x set error_%s to false" % e)

        def base(line, res):
            got = parse_scan(res)
            if got is None:
                raise Fail("scan failed: " + res[:200])
            st["scan"] = got
        s.ok("w 123456:7a7a:x0102")
        s.add("scan", base)

        def again(line, res):
            got = parse_scan(res)
            if got is not None and st.get("last_copy") and set(st["scan"]) <= set(got):
                return      # the last copy of a partition was dropped, its events can be restored from the log
            if got is None or got != st["scan"] or "123456:7a7a:2.b6cc4292" not in got:
                raise Fail("scan after reopen: %s" % (res[:200] if got is None else diff(got, st["scan"])))
        for p in PROBE:
            s.add("x " + p, lambda line, res, p=p: st["probe"].__setitem__(p, self.defs(p, res)))
        s.ok("close")
        s.ok("init")
        s.ok("open")
        s.add("scan", again)
        st2 = st

        def same(p):
            def cb(line, res):
                v = self.defs(p, res)
                if v != st2["probe"][p]:
                    raise Fail("'%s' after reopen: %s instead of %s" % (p, str(v)[:400], str(st2["probe"][p])[:400]))
            return cb
        for p in PROBE:
            s.add("x " + p, same(p))
        s.ok("close")
        self.exec(case, s)
        n["nontrivial"] = n["ok"] >= 1 and n["err"] >= 1
        return n

    def defs(self, p, res):
        j = jparse(res)
        if p == "show storages":
            return {k: v["config"] for k, v in j.items()}
        if p == "show all":
            for k in ("ssn", "lsn"):
                j.pop(k, None)
        return j
