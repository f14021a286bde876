#!/usr/bin/env python3
"""seedtest.py <id>... : confirm planted bugs (apply, build, stable tests, demo both ways) and run the
property's check against each.  Works on /repo itself and undoes the patch.  --nocheck / --nodemo"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, t=1200):
    try:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
extra = [a[2:] for a in sys.argv[1:] if a.startswith("-C")]
assert sh("git -C /repo status --porcelain")[1] == ""
for i in ids:
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    out, hit = [], []
    try:
        rc, o = sh("git -C /repo apply " + d + "/patch.diff")
        if rc: print(i, "PATCH DOES NOT APPLY", o); continue
        if "--nodemo" not in sys.argv:
            rc, o = sh("bash /opt/vp/build.sh")
            if rc: print(i, "BUILD FAILS", o[-1500:]); continue
            rc, o = sh("bash /opt/vp/test.sh /tmp/seed.json")
            r = json.load(open("/tmp/seed.json"))
            out.append("tests %d/%d" % (len(r["passed"]), len(r["passed"]) + len(r["failed"])))
            if r["failed"]: out.append("FAILED " + " ".join(r["failed"][:4]))
            rc, o = sh("cd /repo && bash " + d + "/demo.sh", 300)
            out.append("demo with patch rc=%d %s" % (rc, o.strip()[-160:]))
        if "--nocheck" not in sys.argv:
            for p in [meta["property"]] + extra:
                rc, o = sh("cd %s && python3 check.py %s" % (V, p))
                first = [l for l in o.splitlines() if l.startswith("counterexample") or l.startswith("PROBLEM") or l.startswith("ERROR")][:1]
                if rc == 1: hit.append(p + " (" + re.findall(r"^counterexample \[(\w+)\]", o, re.M)[0] + ")")
                out.append("check %s rc=%d %s" % (p, rc, (first or [""])[0][:200]))
    finally:
        sh("git -C /repo checkout -- .")
    if "--nodemo" not in sys.argv:
        sh("bash /opt/vp/build.sh")
        rc, o = sh("cd /repo && bash " + d + "/demo.sh", 300)
        out.append("demo clean rc=%d %s" % (rc, o.strip()[-300:] if rc else ""))
    if "--nocheck" not in sys.argv:
        cf = V + "/tools/caught.json"
        c = json.load(open(cf)) if os.path.exists(cf) else {}
        c[i] = ", ".join(hit) or "not caught"
        json.dump(c, open(cf, "w"), indent=1, sort_keys=True)
    print(i, "|", " | ".join(out), flush=True)
