#!/usr/bin/env python3
"""Reverts every fix commit of /repo in a scratch copy and runs the property's check against it.
Caught: the shrunk case goes to corpus/<ID>/fix-<hash>.json. Usage: regress.py [hash...]"""
import glob, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW, SB = "/tmp/rg", "/tmp/rgb"


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


res_path = os.path.join(V, "tools", "regress.json")
res = json.load(open(res_path)) if os.path.exists(res_path) else {}
for line in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    pid, h, what = m.groups()
    if len(sys.argv) > 1 and h not in sys.argv[1:]:
        continue
    if len(sys.argv) == 1 and h in res:
        continue
    shutil.rmtree(SW, ignore_errors=True)
    sh("git clone -q /repo %s" % SW)
    r = sh("git -C %s -c user.email=a@b -c user.name=a revert -n %s" % (SW, h))
    if r.returncode:
        res[h] = [pid, "conflict", what]
    else:
        env = dict(os.environ, VERIF_REPO=SW, VERIF_BUILD=SB)
        r = sh("python3 check.py %s" % pid, cwd=V, env=env)
        v = re.search(r"VIOLATION property=\S+ replay=(\S+)", r.stdout)
        if v:
            case = json.load(open(v.group(1)))
            d = os.path.join(V, "corpus", pid)
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "fix-%s.json" % h)
            json.dump({"case": case["case"], "what": what, "message": case["message"][:300]}, open(f, "w"))
            q = sh("python3 check.py %s --replay %s" % (pid, f), cwd=V)
            if "VIOLATION" in q.stdout:
                os.unlink(f)
                res[h] = [pid, "case fails on the fixed tree?!", what, case["message"][:200]]
            else:
                res[h] = [pid, "caught", what, case["message"][:200]]
        else:
            res[h] = [pid, "missed" if r.returncode == 0 else "error", what, r.stdout[-300:]]
    print(h, res[h], flush=True)
    json.dump(res, open(res_path, "w"), indent=1)
shutil.rmtree(SW, ignore_errors=True)
shutil.rmtree(SB, ignore_errors=True)
