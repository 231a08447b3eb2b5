#!/usr/bin/env python3
"""Writes known_findings.json: the defects found, repaired in /repo ("fixed") or recorded ("findings")."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = """
recovery refuses a file left by a failed move=C19
end of the id range=C10
without overflow or truncation=C01
splits? overwrites|memtable page split=C01
zstd compression of empty=C09
damaged compressed and encrypted=C12
lz4 contexts=C09
nested partition lock=C17
counts the key twice=C20
seek to a key after the last event=C02
cursor position after writes=C03
rollback of a batch=C04
failed refresh loses data=C19
records of a concurrent write=C17
incomplete wal record after a failed write=C06
replay of a partition drop$=C18
storage size and events are not updated=C15
files left by failed operations reappear=C18
check region data crc=C12
alter storage changes state before=C14
same storage used by several tiers=C13
rebalance of a partition after an error=C15
memory limit wait=C20
recovery with files left by several=C19
restore of the serial number=C16
deadlock between batches=C17
json string escaping=C13
keeps the tail of a previous failed upload=C19
move of a partition without a file=C08
wal gc forgets files=C11
left by a failed write before close=C04
replay of a dropped partition into a newer=C18
uploaded partition with a file left by a failed refresh=C19
previous storage of a moved partition=C19
not the last one is silently skipped=C12
downloaded partition file is used before=C21
alter of an s3 cloud=C13
keeps a cloud which failed to be attached=C13
worker crash after a failed operation=C17
concurrent refreshes of one partition=C17
fail to create the cloud mock directory=C17
CREATE STORAGE uses the compression setting=C17
drop resets the refresh flag=C17
refresh flag is read and written=C17
beyond 4GiB=C01
without an open file=C19
descriptor leak when the sync=C19
more memory than the memory limit=C20
memory page size is not validated=C20
open of an open handle=C23
cursor key longer than 255=C02
open partition files leak=C23
config file has no content=C23
region of a different size=C21
relying on the removed cloud copy=C21
hangs the upload to S3=C21
depends on the current interval=C05
cancels the refresh of the same request=C25
uploaded in between is lost=C25
data race between a background refresh=C17
downloaded file is not synced=C07
calls before the environment is open=C26
""".strip().splitlines()
import re
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "56d241e..HEAD"], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    c = [m.rsplit("=", 1)[1] for m in MAP if re.search(m.rsplit("=", 1)[0], s)]
    if len(c) != 1:
        print("no single property for", s, c)
        continue
    fixed.append("fixed: property=%s %s %s" % (c[0], h, s[5:]))
old = os.path.join(V, "known_findings.json")
findings = json.load(open(old))["findings"] if os.path.exists(old) else []
json.dump({"findings": findings, "fixed": fixed}, open(old, "w"), indent=1)
print(len(findings), "findings", len(fixed), "fixed of", len(log))
