"""Core of the property-based testing framework: driver runs, reference model, search, shrinking,
evidence and replay files."""
import concurrent.futures as cf
import atexit, copy, hashlib, json, multiprocessing as mp, os, random, re, shutil, signal, subprocess, sys, tempfile, time, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as _build

M64 = (1 << 64) - 1
AUTO = M64


# --- values --------------------------------------------------------------------------------------

def _sm64(x):
    x = (x + 0x9E3779B97F4A7C15) & M64
    z = x
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return x, z ^ (z >> 31)


_vcache = {}


def value_bytes(spec):
    if spec == "-":
        return b""
    if spec[0] == "x":
        return bytes.fromhex(spec[1:])
    head, ln = spec[1:].split(".")
    ln = int(ln)
    if spec[0] == "r":
        x = int(head) & M64
        parts = []
        for _ in range((ln + 7) // 8):
            x, v = _sm64(x)
            parts.append(v.to_bytes(8, "little"))
        return b"".join(parts)[:ln]
    pat = bytes.fromhex(head)
    return (pat * (ln // len(pat) + 1))[:ln]


def digest(spec):
    """length.crc32 of a value specification, as printed by the driver"""
    r = _vcache.get(spec)
    if r is None:
        b = value_bytes(spec)
        r = "%d.%08x" % (len(b), zlib.crc32(b))
        if len(_vcache) > 200000:
            _vcache.clear()
        _vcache[spec] = r
    return r


def key_bytes(k):
    if k == "-":
        return b""
    if k[0] in "rc" and "." in k:
        return value_bytes(k)
    return bytes.fromhex(k)


def bulk_events(start, step, count, key, kind, seed, ln):
    for i in range(count):
        if kind == "r":
            v = "r%d.%d" % (seed + i, ln)
        else:
            v = "c%016x.%d" % ((seed + i) & M64, ln)
        yield start + step * i, key, v


# --- model ---------------------------------------------------------------------------------------

class Map:
    """Reference model: ordered map (id, key) -> value digest."""

    def __init__(self, d=None):
        self.d = dict(d or {})

    def copy(self):
        return Map(self.d)

    def put(self, id, key, spec):
        self.d[(id, key_bytes(key))] = digest(spec)

    def delete(self, id, key):
        self.d.pop((id, key_bytes(key)), None)

    def apply(self, events):
        for e in events:
            if len(e) > 3 and e[3]:
                self.delete(e[0], e[1])
            else:
                self.put(e[0], e[1], e[2])

    def drop(self, lo, hi):
        self.d = {k: v for k, v in self.d.items() if not (lo <= k[0] <= hi)}

    def list(self, lo=None):
        ks = sorted(k for k in self.d if lo is None or k >= lo)
        return [show(k, self.d[k]) for k in ks]

    def __eq__(self, o):
        return self.d == o.d


def show(k, v):
    return "%d:%s:%s" % (k[0], k[1].hex() or "-", v)


def parse_event(s):
    id, key, val = s.split(":")[:3]
    return (int(id), b"" if key == "-" else bytes.fromhex(key)), val


def ev_text(e):
    return "%d:%s:%s%s" % (e[0], e[1], e[2], ":d" if len(e) > 3 and e[3] else "")


def parse_scan(res):
    """-> list of event strings, or None on error"""
    if not res.startswith("ok "):
        return None
    p = res.split(" ")
    return p[2:]


def diff(got, want, n=4):
    g, w = set(got), set(want)
    miss = [x for x in want if x not in g][:n]
    extra = [x for x in got if x not in w][:n]
    s = "got %d events, want %d" % (len(got), len(want))
    if miss: s += "; missing " + " ".join(miss)
    if extra: s += "; unexpected " + " ".join(extra)
    if not miss and not extra:
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                s += "; order differs at %d: %s instead of %s" % (i, a, b)
                break
        else:
            dup = [x for x in got if got.count(x) > 1][:n] if len(got) < 5000 else []
            s += "; duplicates " + " ".join(dup)
    return s


# --- running the driver ----------------------------------------------------------------------------

class Fail(Exception):
    pass


def scratch_base():
    for b in ("/dev/shm", "/tmp"):
        if os.path.isdir(b) and os.access(b, os.W_OK):
            try:
                st = os.statvfs(b)
                if st.f_bavail * st.f_frsize > 512 << 20:
                    return b
            except OSError:
                pass
    return "/tmp"


def scratch_dir():
    d = os.environ.get("MNV_SCRATCH")
    if not d or not os.path.isdir(d):
        d = tempfile.mkdtemp(prefix="mnv-", dir=scratch_base())
        os.environ["MNV_SCRATCH"] = d
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return d


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=98:abort_on_error=0:allocator_may_return_null=1:handle_abort=0",
            "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98",
            "TSAN_OPTIONS": "exitcode=98:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:suppressions=" + os.path.join(VERIF, "lib", "tsan.supp")}


class Driver:
    def __init__(self, variant="plain"):
        self.variant = variant
        self.exe = _build.build(variant)

    def run(self, lines, timeout=60, keep=None, pre=None):
        """Run a script; returns (list of result lines, stderr)."""
        root = keep or tempfile.mkdtemp(prefix="c-", dir=scratch_dir())
        try:
            if pre:
                pre(root)
            env = dict(os.environ)
            env.update(ASAN_ENV)
            p = subprocess.run([self.exe, root, str(timeout)], input="\n".join(lines) + "\n",
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="surrogateescape",
                               env=env, timeout=timeout * 8 + 60)
            out = p.stdout.split("\n")
            if out and out[-1] == "":
                out.pop()
            return out, p.stderr
        finally:
            if not keep:
                shutil.rmtree(root, ignore_errors=True)


class Walk:
    """Pairs script lines with result lines, session by session."""

    def __init__(self, lines, out, err=""):
        self.sessions = []
        cur = []
        for l in lines:
            if l == "---":
                self.sessions.append(cur)
                cur = []
            else:
                cur.append(l)
        self.sessions.append(cur)
        self.results = []   # per session: (list of results, end, threads)
        self.err = err
        i = 0
        for s in self.sessions:
            res = []
            end = None
            esc = None
            while i < len(out):
                l = out[i]
                i += 1
                if l.startswith("@exit ") or l.startswith("@signal "):
                    end = l
                    if i < len(out) and out[i].startswith("@escape"):
                        esc = out[i]
                        i += 1
                    break
                res.append(l)
            self.results.append((res, end, esc))
            if end is None:
                break


class Script:
    """Builds a script with a callback for each line; the callbacks judge the results in order."""

    def __init__(self):
        self.lines = []
        self.cbs = []
        self.crash_cbs = {}     # session index -> callback(self, crashed, index of the first line not answered)
        self.session = 0
        self.stats = {}

    def add(self, line, cb=None):
        assert "\n" not in line
        self.lines.append(line)
        self.cbs.append(cb)

    def ok(self, line):
        """line that must succeed"""
        self.add(line, self._must_ok)

    @staticmethod
    def _must_ok(line, res):
        if not res.startswith("ok"):
            raise Fail("'%s' answered: %s" % (line[:120], res[:300]))

    def new_session(self, on_end=None):
        """on_end(crashed, pos): called when the session that ends here is over"""
        self.crash_cbs[self.session] = on_end
        self.lines.append("---")
        self.cbs.append(None)
        self.session += 1

    def execute(self, driver, timeout=60, pre=None):
        out, err = driver.run(self.lines, timeout, pre=pre)
        self.judge(out, err)

    def judge(self, out, err):
        i = 0
        n = len(self.lines)
        o = 0
        ses = 0
        tail = err.strip().split("\n")
        tail = " | ".join(x for x in tail if x.strip())[:600] if err.strip() else ""
        while True:
            # one session
            ended = None
            while i < n and self.lines[i] != "---":
                if o >= len(out):
                    raise Fail("driver died without a status " + tail)
                if self.lines[i] != "threads" and (out[o].startswith("@exit") or out[o].startswith("@signal")):
                    ended = out[o]
                    break
                if self.lines[i] != "threads" and out[o].startswith("@"):
                    raise Fail("%s in session %d at '%s' %s" % (out[o], ses, self.lines[i][:100], tail))
                line = self.lines[i]
                if line == "threads":
                    blk = []
                    while o < len(out) and not out[o].startswith("ok threads") and not out[o].startswith("@"):
                        blk.append(out[o])
                        o += 1
                    if o < len(out) and out[o] == "@exit 99":
                        # the process was killed inside of the block
                        if self.cbs[i]:
                            self.cbs[i]([l for l in self.lines[i + 1:self.lines.index("endthreads", i)]], blk)
                        ended = out[o]
                        break
                    if o >= len(out) or out[o].startswith("@"):
                        what = out[o:o + 2]
                        raise Fail("threads block ended by %s %s" % (what, tail))
                    j = i
                    while self.lines[j] != "endthreads":
                        j += 1
                    cb = self.cbs[i]
                    ops = self.lines[i + 1:j]
                    i = j + 1
                    o += 1
                    if cb:
                        cb(ops, blk)
                    continue
                cb = self.cbs[i]
                res = out[o]
                o += 1
                i += 1
                if cb:
                    cb(line, res)
            pos = i
            if ended is None:
                if o >= len(out):
                    raise Fail("driver died without a status " + tail)
                ended = out[o]
            o += 1
            code = ended.split()
            esc = None
            if o < len(out) and out[o].startswith("@escape"):
                raise Fail("write outside of the database directory: " + out[o])
            if code[0] == "@signal":
                what = {"6": "abort/assertion", "11": "segmentation fault", "14": "hang (time limit)"}.get(code[1], "signal " + code[1])
                raise Fail("%s at '%s' %s" % (what, self.lines[pos][:160] if pos < n else "end", tail))
            if code[0] == "@exit" and code[1] == "98":
                raise Fail("sanitizer report at '%s': %s" % (self.lines[pos][:160] if pos < n else "end", _san(err)))
            if code[0] != "@exit" or code[1] not in ("0", "99"):
                raise Fail("%s at '%s' %s" % (ended, self.lines[pos][:160] if pos < n else "end", tail))
            crashed = code[1] == "99"
            cb = self.crash_cbs.get(ses)
            if cb:
                cb(crashed, pos)
            while i < n and self.lines[i] != "---":
                i += 1
            if i >= n:
                break
            i += 1
            ses += 1


def _san(err):
    lines = err.split("\n")
    keep = [l.strip() for l in lines if "ERROR: " in l or "runtime error" in l or "WARNING: Thread" in l or "SUMMARY" in l or l.strip().startswith("#")]
    return " | ".join(keep[:10])[:900]


# --- search ----------------------------------------------------------------------------------------

class Property:
    """A property check. Subclasses provide gen(rng, tier) -> case (json), run(case) -> stats dict,
    raising Fail on violation."""
    id = "?"
    level = "exploration"
    rule = ""
    assumptions = []
    variants = ["plain"]
    quick = 400
    thorough = 8000
    size = 1.0
    time_cap = {"quick": 420, "thorough": 3600}

    def gen(self, rng, tier):
        raise NotImplementedError

    def directed(self):
        """hand-written or previously shrunk cases, always run first"""
        return load_corpus(self.id)

    def run(self, case):
        raise NotImplementedError

    def nontrivial(self, case, stats):
        return bool(stats.get("nontrivial", True))

    def shrink_steps(self, case):
        return generic_shrinks(case)

    def variant_of(self, case):
        return case.get("variant", "plain")

    # drivers are per process
    _drivers = {}

    def driver(self, variant="plain"):
        d = Property._drivers.get(variant)
        if d is None:
            d = Property._drivers[variant] = Driver(variant)
        return d


def load_corpus(pid):
    d = os.path.join(VERIF, "corpus", pid)
    r = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                r.append(json.load(open(os.path.join(d, f)))["case"])
    return r


def generic_shrinks(case):
    """Yield simpler variants of a case: fewer ops first (chunks), then simpler fields."""
    ops = case.get("ops")
    if isinstance(ops, list) and ops:
        n = len(ops)
        k = n // 2
        while k >= 1:
            for i in range(0, n, k):
                c = dict(case)
                c["ops"] = ops[:i] + ops[i + k:]
                if len(c["ops"]) < n:
                    yield c
            k //= 2
        # simplify events inside write ops
        for i, op in enumerate(ops):
            for s in op_shrinks(op):
                c = dict(case)
                c["ops"] = ops[:i] + [s] + ops[i + 1:]
                yield c
    cfg = case.get("cfg")
    if isinstance(cfg, dict):
        for k in list(cfg):
            c = dict(case)
            c["cfg"] = {a: b for a, b in cfg.items() if a != k}
            yield c


def op_shrinks(op):
    if not isinstance(op, list):
        return
    for j, f in enumerate(op):
        if isinstance(f, list):
            if len(f) > 1:
                h = len(f) // 2
                yield op[:j] + [f[:h]] + op[j + 1:]
                yield op[:j] + [f[h:]] + op[j + 1:]
                if len(f) <= 8:
                    for i in range(len(f)):
                        yield op[:j] + [f[:i] + f[i + 1:]] + op[j + 1:]
            if f and all(isinstance(e, list) and len(e) >= 3 for e in f) and len(f) <= 8:
                for i, e in enumerate(f):
                    if isinstance(e[2], str) and e[2] != "-" and len(e[2]) > 1:
                        g = copy.deepcopy(f)
                        g[i][2] = "-"
                        yield op[:j] + [g] + op[j + 1:]
                    if isinstance(e[1], str) and e[1] != "-":
                        g = copy.deepcopy(f)
                        g[i][1] = "-"
                        yield op[:j] + [g] + op[j + 1:]
        elif isinstance(f, int) and not isinstance(f, bool) and j > 0 and f > 2 and op[0] in ("wb",):
            yield op[:j] + [f // 2] + op[j + 1:]


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def _try(prop, case):
    """-> (message or None, stats)"""
    try:
        st = prop.run(case) or {}
        return None, st
    except Fail as e:
        return str(e), {}
    except subprocess.TimeoutExpired:
        return "hang: the driver did not finish", {}
    except (KeyError, ValueError, IndexError, TypeError) as e:
        import traceback
        return "unexpected answer: " + traceback.format_exc().replace("\n", " | ")[-700:], {}


def msg_class(m):
    """what kind of failure a message describes, without names and numbers"""
    m = re.sub(r"'[^']*'", "", m)
    m = re.sub(r"\|.*|/[^ ]*|\d+|[0-9a-f]{8}", "", m)
    return " ".join(m.split()[:9] if "answered" in m or "refused" in m else m.split()[:2])


def shrink(prop, case, msg, budget_s=60, budget_n=600):
    t0 = time.time()
    n = 0
    best, bmsg = case, msg
    progress = True
    while progress and time.time() - t0 < budget_s and n < budget_n:
        progress = False
        for c in prop.shrink_steps(best):
            if time.time() - t0 > budget_s or n > budget_n:
                break
            n += 1
            try:
                m, _ = _try(prop, c)
            except Exception:
                continue
            if m and msg_class(m) == msg_class(msg) and prop.known(c, m) is None:
                best, bmsg = c, m
                progress = True
                break
    return best, bmsg


# known findings: /verif/known_findings.json
def known_load():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p)).get("findings", [])
    return []


def _known(self, case, msg):
    return None


Property.known = _known

_PROP = None


def _init_worker(modname, clsname):
    global _PROP
    import importlib
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _PROP = getattr(importlib.import_module(modname), clsname)()


def _work(arg):
    kind, i, seed, tier, case = arg
    prop = _PROP
    try:
        if case is None:
            rng = random.Random("%s/%s/%s" % (seed, prop.id, i))
            case = prop.gen(rng, tier)
        t0 = time.time()
        msg, st = _try(prop, case)
        nt = msg is None and prop.nontrivial(case, st)
        return i, case, msg, st, nt, case_hash(case), time.time() - t0, None
    except Exception as e:
        import traceback
        return i, case, None, {}, False, "", 0, traceback.format_exc()


def run_check(prop, modname, tier, seed, limit=None, jobs=None):
    t0 = time.time()
    for v in prop.variants:
        _build.build(v)
    total = limit or int(os.environ.get("VERIF_CASES", 0)) or (prop.quick if tier == "quick" else prop.thorough)
    cap = prop.time_cap[tier]
    jobs = jobs or int(os.environ.get("VERIF_JOBS", 0)) or min(8, os.cpu_count() or 4)
    directed = prop.directed()
    tasks = [("d", -1 - k, seed, tier, c) for k, c in enumerate(directed)]
    tasks += [("g", k, seed, tier, None) for k in range(total)]
    ev = 0
    nontriv = set()
    seen = set()
    samples = []
    agg = {}
    fails = []
    knowns = {}
    errors = []
    ctx = mp.get_context("fork")
    scratch_dir()
    stop = False
    stopped_early = False
    with ctx.Pool(jobs, _init_worker, (modname, type(prop).__name__)) as pool:
        for r in pool.imap_unordered(_work, tasks, chunksize=1):
            i, case, msg, st, nt, h, dt, exc = r
            if exc:
                errors.append(exc)
                if len(errors) > 3:
                    stop = True
                    break
                continue
            ev += 1
            for k, v in st.items():
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    agg[k] = agg.get(k, 0) + v
            if msg:
                k = prop.known(case, msg)
                if k:
                    knowns[k] = knowns.get(k, 0) + 1
                else:
                    fails.append((i, case, msg))
                    if len(fails) >= 3 or time.time() - t0 > 60:
                        stop = True
                        break
            elif nt:
                if h not in nontriv and (len(samples) < 3 or i in (7, 77)):
                    samples.append({"index": i, "case": trim(case)})
                nontriv.add(h)
            if time.time() - t0 > cap:
                stopped_early = True
                break
            if fails and time.time() - t0 > 30:
                break
        pool.terminate()
    rc = 0
    out = []
    if fails:
        # the shortest failing case first
        fails.sort(key=lambda f: len(json.dumps(f[1])))
        for i, case, msg in fails:
            ok = 0
            for _ in range(3):
                m, _st = _try(prop, case)
                if m and prop.known(case, m) is None:
                    ok += 1
            if ok == 0:
                print("note: case %d failed once and not again: %s" % (i, msg))
                if not getattr(prop, "nondet_ok", False):
                    continue
            if ok:
                case, msg = shrink(prop, case, msg, budget_s=60 if tier == "quick" else 300)
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop.id, case_hash(case)[:12]))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump({"property": prop.id, "case": case, "message": msg, "seed": seed, "index": i}, open(path, "w"), indent=1)
            print("failing case: " + json.dumps(trim(case))[:2000])
            print("reason: " + msg[:1500])
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
            rc = 1
            break
    for k, n in sorted(knowns.items()):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop.id, k, n))
    cov = {"evaluations": ev, "distinct_nontrivial": len(nontriv), "rule": prop.rule,
           "samples": samples[:5], "directed_cases": len(directed), "measured": {k: round(v, 3) for k, v in sorted(agg.items())}}
    if stopped_early:
        cov["stopped_at_time_cap"] = True
    evd = {"property": prop.id, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov,
           "assumptions": list(prop.assumptions), "wall_s": round(time.time() - t0, 2), "violations": 1 if rc else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    if errors and rc == 0:
        print(errors[0])
        print("error: %d cases could not be evaluated" % len(errors))
        rc = 2
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s, %s" % (prop.id, tier, ev, len(nontriv), time.time() - t0,
          "violation" if rc == 1 else "ok" if rc == 0 else "error"))
    return rc


def trim(x, n=24):
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in x.items()}
    if isinstance(x, list):
        r = [trim(v, n) for v in x[:n]]
        if len(x) > n:
            r.append("... %d more" % (len(x) - n))
        return r
    if isinstance(x, str) and len(x) > 200:
        return x[:200] + "..."
    return x
