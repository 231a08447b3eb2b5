#!/usr/bin/env python3
"""cross.py HASH [ID...]: revert a fix commit in a scratch copy and run every check (or the ones named) against it."""
import os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
h = sys.argv[1]
SW, SB = "/tmp/cr." + h, "/tmp/crb." + h


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


sh("git clone -q /repo %s" % SW)
r = sh("git -C %s -c user.email=a@b -c user.name=a revert -n %s" % (SW, h))
if r.returncode:
    sys.exit("conflict")
for p in sys.argv[2:] or ["C%02d" % i for i in range(1, 26)]:
    r = sh("python3 check.py %s" % p, cwd=V, env=dict(os.environ, VERIF_REPO=SW, VERIF_BUILD=SB))
    v = re.search(r"VIOLATION property=\S+ replay=(\S+)", r.stdout)
    why = [l for l in r.stdout.split("\n") if l.startswith("reason")]
    if r.returncode:
        print(h, p, r.returncode, v and v.group(1), (why or [r.stdout[-200:]])[0][:200], flush=True)
print(h, "done", flush=True)
shutil.rmtree(SW, ignore_errors=True)
shutil.rmtree(SB, ignore_errors=True)
