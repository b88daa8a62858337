#!/usr/bin/env python3
"""Plant a bug: seed.py SPEC.py  -- SPEC defines ID, PROP, FILE, EDITS=[(old,new)], NEEDS, BREAKS, DEMO (ts).
Writes seeded/ID/{patch.diff,demo.sh,demo.ts,meta.json}. With --run also builds, tests, runs demo and checks."""
import sys, os, subprocess, json, runpy
S = runpy.run_path(sys.argv[1])
R = os.environ.get("SR", "/repo")
d = f"/verif/seeded/{S['ID']}"
os.makedirs(d, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh(f"git -C {R} status --porcelain").stdout == "", "repo dirty"
edits = S['EDITS']
for e in edits:
    f, old, new = e if len(e) == 3 else (S['FILE'], *e)
    p = f"{R}/{f}"; t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(p, "w").write(t.replace(old, new))
try:
    diff = sh(f"git -C {R} diff").stdout
    open(f"{d}/patch.diff", "w").write(diff)
    ext = S.get('EXT', 'mts')
    open(f"{d}/demo.{ext}", "w").write(S['DEMO'])
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport REPO="$PWD"\nexec node --import "$PWD/node_modules/tsx/dist/esm/index.mjs" "$here/demo.' + ext + '"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": S['PROP'], "needs": S['NEEDS'], "what_it_breaks": S['BREAKS']}, open(f"{d}/meta.json", "w"), indent=1)
    r = sh(f"cd {R} && timeout 300 bash {d}/demo.sh"); print("demo patched rc", r.returncode, r.stdout[-300:], r.stderr[-300:])
    if "--notest" not in sys.argv:
        print(sh("bash /tmp/t.sh").stdout[-600:])
    c = sh(f"cd /verif && VERIF_REPO={R} bin/check {S['PROP']}"); print("check rc", c.returncode, c.stdout[-700:], c.stderr[-300:])
finally:
    subprocess.run(f"git -C {R} checkout -q -- .", shell=True)
r = sh(f"cd {R} && timeout 300 bash {d}/demo.sh"); print("demo clean rc", r.returncode, r.stdout[-300:], r.stderr[-600:])
