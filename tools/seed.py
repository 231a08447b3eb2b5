#!/usr/bin/env python3
"""seed.py DEFS.py [ID...]: make the planted changes described in a definitions file, confirm each in a
scratch copy of /repo (builds, tests pass, demonstration fails with and passes without) and run the
check of its property against it.
seed.py --recheck [ID...]: run the checks against the kept changes again (patch from seeded/)."""
import json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sw"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def fresh():
    sh("rm -rf /tmp/sw; mkdir /tmp/sw; cd /repo && git archive HEAD | tar -x -C /tmp/sw && cd /tmp/sw && git init -q . && git add -A -f . && git -c user.name=x -c user.email=x@x commit -qm base")


def build():
    r = sh("cd %s && cmake -S %s/build -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=gcc && ninja -C %s/_build all examples" % (W, W, W, W), env=dict(os.environ, CC="gcc", LC_ALL="C.UTF-8"))
    return r.returncode == 0, r.stdout[-2000:]


def tests():
    r = sh("""cd %s && B=%s/_build && gcc -shared -fPIC -O1 -o $B/readdir_order.so /opt/vp/readdir_order.c -ldl && rm -rf $B/vp-results && mkdir -p $B/vp-results &&
    python3 /opt/vp/run_plan.py %s/test $B/monotone-test $B/vp-work $B/readdir_order.so > $B/vp-results/results.txt; python3 /opt/vp/results.py /tmp/sw.json lines:$B/vp-results/results.txt""" % (W, W, W))
    o = json.load(open("/tmp/sw.json"))
    lost = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"])
    return lost


def check(prop):
    t = time.time()
    r = sh("cd %s && python3 check.py %s" % (VERIF, prop), env=dict(os.environ, VERIF_REPO=W, VERIF_BUILD="/tmp/swb", VERIF_SEED="1", VERIF_TIER="quick"))
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    why = [l for l in r.stdout.split("\n") if l.startswith("reason")]
    return r.returncode, v, (why[0][:300] if why else r.stdout[-300:]), time.time() - t


def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=W)
    return r.returncode, r.stdout[-300:]


def main():
    if sys.argv[1] == "--recheck":
        ids = sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded"))
        for i in ids:
            d = VERIF + "/seeded/" + i
            m = json.load(open(d + "/meta.json"))
            fresh()
            r = sh("git apply %s/patch.diff" % d, cwd=W)
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stdout[:200])
                continue
            rc, v, why, dt = check(m["property"])
            print("%-30s %s rc=%d %s %.0fs %s" % (i, m["property"], rc, "CAUGHT" if rc == 1 and v else "MISSED", dt, why[:160]), flush=True)
        return
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        d = VERIF + "/seeded/" + s["id"]
        fresh()
        os.makedirs(d, exist_ok=True)
        for f in ("demo.h", "demo.sh"):
            shutil.copy(VERIF + "/tools/seedlib/" + f, d)
        if "demosh" in s:
            open(d + "/demo.sh", "w").write(s["demosh"])
        if "demo" in s:
            open(d + "/demo.c", "w").write('#include "demo.h"\n' + s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok, msg = build()
        assert ok, msg
        rc, o = demo(d)
        if rc:
            print(s["id"], "demo fails on the unchanged tree:", rc, o)
            continue
        for f, old, new in s["edits"]:
            p = W + "/monotone/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "edit does not match once:", f, t.count(old))
                break
            open(p, "w").write(t.replace(old, new))
        else:
            diff = sh("git diff", cwd=W).stdout
            open(d + "/patch.diff", "w").write(diff)
            n = 0
            for part in diff.split("diff --git ")[1:]:
                base = sh("git -C /repo show 56d241e:%s" % re.match(r"a/(\S+)", part).group(1)).stdout.split("\n")
                n += sum(1 for l in part.split("\n") if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in base)
            if not n:
                print(s["id"], "removes no line of the original repository")
                continue
            ok, msg = build()
            if not ok:
                print(s["id"], "does not build", msg)
                continue
            lost = tests()
            rc, o = demo(d)
            if lost or not rc:
                shutil.rmtree(d)
            print("%-26s tests lost: %s; demo rc=%d %s" % (s["id"], sorted(lost)[:4], rc, o.strip().replace("\n", " / ")[-160:]), flush=True)
            if lost or not rc:
                continue
            rc, v, why, dt = check(s["property"])
            print("    %s rc=%d %s %.0fs %s" % (s["property"], rc, "CAUGHT" if rc == 1 and v else "MISSED", dt, why[:220]), flush=True)


main()
