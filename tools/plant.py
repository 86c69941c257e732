#!/usr/bin/env python3
"""plant.py ID: verifies the planted bug /verif/seeded/ID against /repo (which must be clean):
builds, runs stable tests, the demo without and with the patch, then its property's check.
Options: --no-check, --no-tests. Restores /repo."""
import json, os, subprocess, sys, time
root = "/verif"
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def undo():
    sh("git -C /repo checkout -- .")
stable = None
def main():
    opts = [a for a in sys.argv[1:] if a.startswith("--")]
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    assert sh("git -C /repo status --porcelain").stdout == "", "/repo is not clean"
    ok = True
    if "--no-demo" not in opts:
        print(sh("bash /opt/vp/build.sh").returncode and "clean build fails" or "clean build ok", flush=True)
    for i in ids:
        d = f"{root}/seeded/{i}"
        meta = json.load(open(f"{d}/meta.json"))
        res = []
        if "--no-demo" not in opts:
            r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
            res.append(f"demo clean rc={r.returncode}")
            if r.returncode: print(r.stdout[-1500:])
        a = sh(f"git -C /repo apply {d}/patch.diff")
        if a.returncode:
            print(i, "DOES NOT APPLY", a.stdout); ok = False; continue
        try:
            if "--no-demo" not in opts:
                b = sh("bash /opt/vp/build.sh")
                res.append(f"build rc={b.returncode}")
                if b.returncode: print(b.stdout[-1500:])
                if "--no-tests" not in opts:
                    sh("bash /opt/vp/test.sh /tmp/plant-out.json")
                    out = json.load(open("/tmp/plant-out.json"))
                    base = json.load(open("/opt/vp/BASELINE.json"))
                    want = base.get("stable") or base.get("passed") or base
                    missing = [t for t in want if t not in out["passed"]]
                    res.append(f"tests lost={len(missing)} {missing[:3]}")
                r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
                res.append(f"demo bug rc={r.returncode}")
            if "--no-check" not in opts:
                for p in ([meta["property"]] + [o[2:] for o in opts if o[2:3] == "C"]):
                    t = time.time()
                    r = sh(f"VERIF_SEED=1 VERIF_TIER=quick bash {root}/check.sh {p}", cwd=root)
                    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                    res.append(f"check {p} rc={r.returncode} {time.time()-t:.0f}s {v[:1]}")
                    if r.returncode not in (0, 1): print(r.stdout[-2000:])
        finally:
            undo()
        print(i, "|", " | ".join(res), flush=True)
main()
