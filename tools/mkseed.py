#!/usr/bin/env python3
"""mkseed.py <id> <property> <needs> <what_it_breaks> : make seeded/<id> from /repo's uncommitted diff and
/tmp/demo.cpp (copies the demo runtime beside it), then undo the change in /repo."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, p, needs, what = sys.argv[1:5]
d = V + "/seeded/" + i
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
assert diff
open(d + "/patch.diff", "w").write(diff)
shutil.copy("/tmp/demo.cpp", d + "/demo.cpp")
src = open("/tmp/demo.cpp").read()
shutil.copy(V + "/tools/demo/demo.sh", d)
if "demo_rt.hpp" in src:
    for f in ("tools/demo/demo_rt.hpp", "harness/world.hpp", "rt/wsym.h"):
        shutil.copy(V + "/" + f, d)
json.dump(dict(property=p, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
