#!/usr/bin/env python3
"""Random source mutations, as a measure of what the checks miss.
mutate.py SEED COUNT OUT.jsonl: mutants that build and pass the stable tests are run against the checks (most related first) until one
reports a violation. Run it as an unprivileged user from a copy of /verif (see mutate.sh)."""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ["MUT_W"]
FRAC = float(os.environ.get("MUT_FRAC", "0.3"))
ORDER = [("memtable|merger|/io/region|rbtree|iterator|cursor|event|comparator", "C01 C02 C03 C08 C09 C10"), ("write|log\\.h", "C04 C06 C20 C05 C16"),
         ("/wal/", "C06 C11 C04 C05 C12"), ("refresh", "C07 C19 C25 C08 C24 C22 C17"), ("engine_recover|/io/part|id\\.h", "C07 C05 C24 C12 C21 C18"),
         ("engine/op|service|worker", "C25 C08 C19 C10 C18 C15 C21 C17"), ("cloud", "C21 C08 C19 C13"), ("storage|pipeline|source", "C13 C15 C22 C08 C09"),
         ("command|execute|config|json|lex", "C14 C13 C05"), ("runtime/lib", "C09 C13 C12 C20"), ("mutex|cond|lock|ref|thread|worker|sched", "C17 C23"),
         ("main/|api", "C23 C26 C14 C01"), ("engine_show", "C22"), ("", "C05 C07 C19")]
CASES = {"C01": 5000, "C02": 3600, "C03": 3200, "C04": 4000, "C05": 3600, "C06": 7000, "C07": 7000, "C08": 4000, "C09": 3600, "C10": 5000, "C11": 3600, "C12": 6400,
         "C13": 5400, "C14": 8000, "C15": 2600, "C16": 4000, "C17": 8000, "C18": 5000, "C19": 5200, "C20": 1300, "C21": 4200, "C22": 2600, "C23": 4000, "C24": 5000,
         "C25": 3600, "C26": 6000}


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def sites(text):
    """(line number, new line or lines) candidates"""
    L = text.split("\n")
    out = []
    for i, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*")) or l[:1] not in ("\t",):
            continue
        code = l.split("//")[0]
        if '"' in code or re.search(r"free\w*\(|_reset\(|usleep|assert\(|abort|data_is_|uint32_t ptr", code):
            continue
        for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "),
                     (" + ", " - "), (" - ", " + "), (" + 1", ""), (" - 1", ""), ("++", "--"), ("+=", "="), ("-=", "+="), ("true", "false"), ("false", "true"),
                     (" = 0;", " = 1;"), (" % ", " / "), ("return -1;", "return 0;"), ("min", "max"), ("max", "min"), ("next", "prev"), ("prev", "next")):
            for m in re.finditer(re.escape(a), code):
                out.append((i, [l[:m.start()] + b + l[m.end():]]))
        m = re.match(r"^(\t+(?:else )?if \()(.*)\)$", code.rstrip())
        if m and m.group(2).count("(") == m.group(2).count(")"):
            out.append((i, [m.group(1) + "!(" + m.group(2) + "))"]))
            out.append((i, [m.group(1) + "0 && (" + m.group(2) + "))"]))
            out.append((i, [m.group(1) + "1 || (" + m.group(2) + "))"]))
        if re.match(r"^\t+[\w>.\-\[\]]+(\(.*\)| (=|\+=|-=|\|=) .*|\+\+|--);$", code.rstrip()) and not re.match(r"^\t+(return|goto)\b", code):
            for _ in range(3):
                out.append((i, ["\t;"]))
            n = L[i + 1].strip() if i + 1 < len(L) else ""
            if n.endswith(";") and not re.match(r"(return|goto|break|continue|else|if|for|while)\b", n):
                out.append((i, [L[i + 1], l, None]))
        if re.match(r"^\t+(break|continue);$", code.rstrip()):
            out.append((i, ["\t;"]))
    return L, out


def main():
    seed, count, res = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    r = random.Random(seed)
    files = [f for f in sh("cd /repo && git ls-files monotone").stdout.split() if f.endswith((".c", ".h")) and not re.search(r"crc\.c|rbtree\.[ch]|list\.h|macro\.h|atomic|logger|error\.h|exception|runtime\.[ch]|allocator|/api/monotone\.h", f)]
    pool = []
    words = {}
    for w in re.findall(r"\w+", "\n".join(open("/repo/" + f).read() for f in sh("cd /repo && git ls-files monotone").stdout.split() if f.endswith((".c", ".h")))):
        words[w] = words.get(w, 0) + 1
    for f in files:
        L, c = sites(open("/repo/" + f).read())
        fn = ""
        names = []
        for l in L:
            m = re.match(r"^(?:static.* )?(\w+)\(", l)
            fn = m.group(1) if m else fn
            names.append(fn)
        pool += [(f, x) for x in c if words.get(names[x[0]], 0) > (2 if f.endswith(".c") else 1)]    # called somewhere
    print(len(pool), "mutants in the pool", flush=True)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    n = 0
    env = dict(os.environ, CC="gcc", LC_ALL="C.UTF-8")
    shutil.rmtree(W, ignore_errors=True)
    sh("git clone -q /repo %s" % W)
    B = W + "/_build"
    while n < count:
        f, (i, new) = r.choice(pool)
        sh("cd %s && git checkout -q -- ." % W)
        L = open(W + "/" + f).read().split("\n")
        old = L[i]
        if new[-1] is None:
            L[i:i + 2] = new[:-1]
        else:
            L[i] = new[0]
        open(W + "/" + f, "w").write("\n".join(L))
        b = sh("cd %s && cmake -S %s/build -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=gcc >/dev/null && timeout 100 ninja -C %s all examples" % (W, W, B, B), env=env)
        if b.returncode:
            continue
        n += 1
        rec = {"file": f, "line": i + 1, "old": old.strip(), "new": (new[0] or "").strip()}
        t = sh("cd %s && gcc -shared -fPIC -O1 -o $B/readdir_order.so /opt/vp/readdir_order.c -ldl && rm -rf $B/vp-results $B/vp-work && mkdir -p $B/vp-results && timeout 100 python3 /opt/vp/run_plan.py %s/test $B/monotone-test $B/vp-work $B/readdir_order.so > $B/vp-results/results.txt; python3 /opt/vp/results.py $B/r.json lines:$B/vp-results/results.txt" % (W, W), env=dict(env, B=B))
        try:
            lost = base - set(json.load(open(B + "/r.json"))["passed"])
        except Exception:
            lost = base
        if lost:
            rec["result"] = "tests"
        else:
            order = []
            for pat, ids in ORDER:
                if re.search(pat, f):
                    order += [x for x in ids.split() if x not in order]
            order += [x for x in CASES if x not in order and x != "C17"]
            order += [] if "C17" in order else ["C17"]
            rec["result"] = "MISSED"
            t0 = time.time()
            for p in order:
                q = sh("cd %s && timeout 600 python3 check.py %s --seed %d --cases %d" % (V, p, n, int(CASES[p] * FRAC)), env=dict(os.environ, VERIF_REPO=W, VERIF_BUILD=W + "/_vb"))
                v = re.search(r"VIOLATION.*", q.stdout)
                if v or q.returncode == 1:
                    why = [x for x in q.stdout.split("\n") if x.startswith("reason")]
                    rec.update(result="caught", by=p, tried=order.index(p) + 1, why=(why or [q.stdout[-200:]])[0][:200])
                    break
                if q.returncode:
                    rec.setdefault("noanswer", []).append([p, q.returncode, q.stdout[-200:]])
            rec["secs"] = int(time.time() - t0)
        open(res, "a").write(json.dumps(rec) + "\n")
        print(rec, flush=True)


main()
