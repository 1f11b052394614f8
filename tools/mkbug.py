#!/usr/bin/env python3
"""mkbug.py ID PROP NEEDS BREAKS: package the working-tree diff of /repo (then reverted) with demo from stdin."""
import sys, os, json, subprocess
i, prop, needs, breaks = sys.argv[1:5]
d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
assert diff.strip()
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.sh", "w").write(sys.stdin.read())
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
