#!/usr/bin/env python3
"""Confirm planted bugs: build, stable tests, demo both ways, then the property's check. usage: seed.py ID... (works on /repo, undoes the patch)"""
import subprocess, sys, json, os
V = "/verif"
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
res = {}
def demo(d):
    r = sh("rm -rf /tmp/seeddemo; mkdir /tmp/seeddemo; cp -a %s/. /tmp/seeddemo/; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json; cd /repo && timeout 300 bash /tmp/seeddemo/demo.sh" % d)
    return r
for i in ids:
    d = f"{V}/seeded/{i}"
    m = json.load(open(d + "/meta.json"))
    assert not sh("git -C /repo status --short").stdout.strip(), "repo dirty"
    out = []
    if os.environ.get("SKIP") != "1":
        r = sh("bash /opt/vp/build.sh"); 
        r = demo(d); out.append(f"clean demo {r.returncode}" + ("" if r.returncode == 0 else " FAIL " + r.stdout[-800:] + r.stderr[-800:]))
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode: print(i, "APPLY", r.stderr); continue
    try:
        if os.environ.get("SKIP") != "1":
            r = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            j = json.load(open("/tmp/seed_out.json"))
            miss = base - set(j["passed"])
            out.append("tests ok" if not miss else f"TESTS FAIL {sorted(miss)} {r.stderr[-600:]}{r.stdout[-600:]}")
            r = demo(d); out.append(f"bug demo {r.returncode}" + ("" if r.returncode else " FAIL (passes with bug)"))
        r = sh(f"cd {V} && python3 check.py {m['property']}")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        out.append(f"check {m['property']} exit {r.returncode} {'CAUGHT' if r.returncode==1 and v else 'MISSED'} {v[:1]} {r.stderr[-300:] if r.returncode not in (0,1) else ''}")
        if os.environ.get("SHOW"): print(r.stdout[:1500])
    finally:
        sh("git -C /repo checkout -- .")
    print(i, " | ".join(out), flush=True)
if os.environ.get("SKIP") != "1": sh("bash /opt/vp/build.sh")
