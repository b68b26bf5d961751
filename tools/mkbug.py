#!/usr/bin/env python3
"""mkbug.py ID: takes the changes in /repo's working tree as the patch of a planted
bug, confirms it (build, stable tests, demonstration) and restores the tree.
The directory seeded/ID must already hold demo.sh and meta.json."""
import subprocess, sys, json, os
bug = sys.argv[1]
d = f"/verif/seeded/{bug}"
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if len(sys.argv) > 2 and sys.argv[2] == "again":
    assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
diff = sh("git -C /repo diff").stdout
assert diff.strip(), "no change"
open(d + "/patch.diff", "w").write(diff)
def demo():
    return sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
ok = True
b = sh("bash /opt/vp/build.sh")
print("build", b.returncode, b.stderr[-500:])
ok &= b.returncode == 0
t = sh("bash /opt/vp/test.sh /tmp/vt.json")
base = json.load(open("/opt/vp/BASELINE.json"))
res = json.load(open("/tmp/vt.json"))
def names(x):
    for k in ("stable", "passed", "pass", "tests"):
        if k in x:
            v = x[k]
            return set(v) if isinstance(v, list) else {n for n, r in v.items() if r in ("pass", "passed", True)}
    raise SystemExit(f"keys {list(x)}")
missing = names(base) - names(res)
print("tests missing", len(missing), list(missing)[:5])
ok &= not missing
r = demo()
print("demo with bug:", r.returncode, r.stdout[-300:], r.stderr[-300:])
ok &= r.returncode != 0
sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
r = demo()
print("demo without:", r.returncode, r.stdout[-300:], r.stderr[-300:])
ok &= r.returncode == 0
os.remove("/tmp/vt.json")
print("CONFIRMED" if ok else "NOT CONFIRMED")
