#!/usr/bin/env python3
"""plant.py SPEC.py [IDS]: plants the bugs of SPEC (list B of dicts id, prop, file, old, new, needs, breaks, demo, files)
in scratch copies of /repo (bind-mounted over /repo in a user namespace), checks that each changes original lines,
builds, passes the stable tests, that its demo tells it apart, writes seeded/<id> and runs the property's check."""
import sys, os, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
BASE = "8ded214"
RUN = '''#!/bin/bash
# compile the program beside this script with the built compiler and run it
T=$(mktemp -d); trap "rm -rf $T" EXIT
D=$(cd "$(dirname "$0")" && pwd)
bin/cc -c "$D/t.c" -o $T/t.o || exit 1
gcc -no-pie $T/t.o -o $T/t || exit 1
timeout 10 $T/t
'''
env = {"RUN": RUN}
exec(open(sys.argv[1]).read(), env)
def ns(d, cmd, **kw):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {d} /repo; {cmd}"], capture_output=True, text=True, **kw)
def one(b):
    i = b["id"]; d = "/tmp/pl/" + i; sd = "/verif/seeded/" + i
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d])
    try:
        f = d + "/" + b["file"]; s = open(f).read()
        if s.count(b["old"]) != 1: return f"pattern occurs {s.count(b['old'])} times"
        os.makedirs(sd, exist_ok=True)
        open(sd + "/demo.sh", "w").write(b.get("demo", RUN))
        for n, t in b["files"].items(): open(sd + "/" + n, "w").write(t)
        ns(d, "bash /opt/vp/build.sh")
        r = ns(d, f"cd /repo; bash {sd}/demo.sh")
        if r.returncode: return "demo fails on clean tree: " + (r.stdout + r.stderr)[-300:]
        open(f, "w").write(s.replace(b["old"], b["new"]))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        base = subprocess.run(["git", "-C", "/repo", "show", BASE + ":" + b["file"]], capture_output=True, text=True).stdout.split("\n")
        new = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---") and l[1:] not in base]
        if new: return "not original: " + repr(new)[:200]
        open(sd + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(sd + "/meta.json", "w"), indent=1)
        r = ns(d, "bash /opt/vp/build.sh")
        if r.returncode: return "build fails: " + r.stderr[-300:]
        r = ns(d, f"cd /repo; bash {sd}/demo.sh")
        if not r.returncode: return "DEMO PASSES WITH PATCH"
        r = ns(d, f"bash /opt/vp/test.sh {d}/../{i}.json; cp /repo/../{i}.json /dev/null")
        res = json.load(open(f"/tmp/pl/{i}.json"))
        m = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(res['passed'])
        if m: return f"tests missing: {len(m)} {sorted(m)[:4]}"
        c = subprocess.run(["git", "-C", d, "diff", "--stat"], capture_output=True, text=True)
        v = d + "v"; subprocess.run("mkdir %s; tar -C /verif --exclude=./.git --exclude=./seeded -cf - . | tar -C %s -xf -" % (v, v), shell=True)
        r = subprocess.run(["python3", v + "/check.py", b["prop"], "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
        shutil.rmtree(v)
        return ("ok caught " if r.returncode == 1 else f"ok MISSED rc={r.returncode} ") + "".join(r.stdout.strip().split("\n")[1:2])[:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)
B = [b for b in env["B"] if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
with ThreadPoolExecutor(3) as ex:
    for b, r in zip(B, ex.map(one, B)):
        print(b["id"], b["prop"], r, flush=True)
        if not r.startswith("ok"): shutil.rmtree("/verif/seeded/" + b["id"], ignore_errors=True)
