#!/usr/bin/env python3
"""Plant a bug: tools/plant.py ID [--notest] [--checks C01,C02]
/verif/seeded/ID/edit.py lines: edits = [(file, old, new), ...]; prop, needs, breaks.  Works in a private mount
namespace on a scratch copy of /repo, so /repo itself never changes."""
import sys, os, json, subprocess, shutil, runpy
ID = sys.argv[1]
D = f"/verif/seeded/{ID}"
W = f"/tmp/plant/{ID}"
notest = "--notest" in sys.argv
checks = None
for i, a in enumerate(sys.argv):
    if a == "--checks":
        checks = sys.argv[i + 1].split(",")
def sh(cmd, cwd=None, t=1200):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return r.returncode, r.stdout.decode("utf8", "replace")
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
sh(f"mkdir -p {W}/verif && cd /verif && cp -a $(ls -A | grep -vxE '.git|build|evidence|seeded') {W}/verif/")
sh(f"cp -a /repo {W}/repo")
e = runpy.run_path(f"/tmp/edits/{ID}.py") if os.path.exists(f"/tmp/edits/{ID}.py") else None
if e:
    for f, old, new, *nth in e["edits"]:         # nth: which of several occurrences
        p = f"{W}/repo/{f}"
        s = open(p, encoding="latin1").read()
        assert s.count(old) == 1 or nth, (f, s.count(old), old)
        parts = s.split(old)
        i = nth[0] + 1 if nth else 1
        open(p, "w", encoding="latin1").write(old.join(parts[:i]) + new + old.join(parts[i:]))
    os.makedirs(D, exist_ok=True)
    rc, o = sh("git diff", f"{W}/repo")
    open(f"{D}/patch.diff", "w").write(o)
    json.dump({"property": e["prop"], "needs": e["needs"], "what_it_breaks": e["breaks"]}, open(f"{D}/meta.json", "w"), indent=1)
    for f in e.get("helpers", ["g.py", "evp.py"]):
        for d in ("/verif/tools/demo", "/verif/lib", "/verif/ref", "/verif/shim", "/verif/shim/prov"):
            if os.path.exists(f"{d}/{f}"):
                shutil.copy(f"{d}/{f}", D)
                break
    open(f"{D}/demo.py", "w").write(e["demo"])
    open(f"{D}/demo.sh", "w").write("#!/bin/bash\nexec timeout 250 python3 -B \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(f"{D}/demo.sh", 0o755)
else:
    rc, o = sh(f"git apply {D}/patch.diff", f"{W}/repo")
    assert rc == 0, o
prop = json.load(open(f"{D}/meta.json"))["property"]
sh(f"cp -a {D} {W}/demo; rm -f {W}/demo/*.diff {W}/demo/meta.json")
ns = f"unshare -m -n -p -f --mount-proc bash -c"
def inns(cmd, patched=True, t=1500):
    pre = f"ip link set lo up; " + (f"mount --bind {W}/repo /repo; " if patched else "") + "cd /repo; "
    return sh(f"{ns} '{pre}{cmd}'", t=t)
rc, o = inns(f"bash {W}/demo/demo.sh", patched=False)
print(ID, "demo clean:", rc, "" if rc == 0 else o)
ok = rc == 0
rc, o = inns("bash /opt/vp/build.sh")
print(ID, "build:", rc, "" if rc == 0 else o[-2000:])
ok &= rc == 0
rc, o = inns(f"bash {W}/demo/demo.sh")
print(ID, "demo patched:", rc, o[-300:])
ok &= rc not in (0, 124)
if not notest:
    rc, o = inns(f"bash /opt/vp/test.sh {W}/res.json")
    b = json.load(open("/opt/vp/BASELINE.json"))
    base = set(b["stable"])
    r = json.load(open(f"{W}/res.json"))
    lost = base - set(r["passed"])
    print(ID, "tests passed:", len(r["passed"]), "lost:", len(lost), sorted(lost)[:5])
    ok &= not lost
print(ID, "VALID" if ok else "INVALID")
for c in checks or [prop]:
    rc, o = inns(f"mount --bind {W}/verif /verif; cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 check.py {c} quick")
    print(ID, "check", c, "rc", rc, [l for l in o.splitlines() if l.startswith("VIOLATION")][:2])
shutil.rmtree(W)
