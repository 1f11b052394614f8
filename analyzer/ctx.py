"""Driver support: obligations, findings, evidence, known-findings file."""
import json, os, sys, time, traceback
from front import Program, AnalysisError, REPO, N, callee_name, locs
from absint import Interp, show, Limit, Ev, inttype, strip

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASEFILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline_functions.txt")


def baseline_names():
    with open(BASEFILE) as f:
        return {l.strip() for l in f if l.strip()}


class Ctx:
    def __init__(self, pid, tier="quick", seed=1, prog=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.P = prog or Program()
        self.findings = []
        self.keys = set()
        self.counts = {}
        self.samples = []
        self.functions = set()
        self.paths = 0
        self.base = baseline_names()
        self.rules = {}
        self.notes = []

    # -------------------------------------------------- obligations
    def rule(self, rid, text):
        self.rules[rid] = text
        self.counts.setdefault(rid, 0)

    def ob(self, rid, instance, ok, where="?", msg="", key=None):
        """One obligation of rule RID at INSTANCE.  ok False -> finding."""
        self.counts[rid] = self.counts.get(rid, 0) + 1
        if self.counts[rid] <= 2 and len(self.samples) < 40:
            self.samples.append("%s [%s] @%s: %s" % (rid, instance, where, "holds" if ok else "VIOLATED"))
        if not ok:
            self.fail(rid, instance, where, msg, key)
        return ok

    def fail(self, rid, instance, where, msg, key=None):
        k = key or "%s:%s" % (rid, instance)
        if k in self.keys:
            return
        self.keys.add(k)
        self.findings.append({"key": k, "rule": rid, "instance": str(instance), "where": where, "msg": msg})

    def require(self, cond, msg):
        if not cond:
            raise AnalysisError(msg)

    def floor(self, rid, n):
        if self.counts.get(rid, 0) < n:
            raise AnalysisError("rule %s matched %d instances, fewer than the %d confirmed by hand" %
                                (rid, self.counts.get(rid, 0), n))

    # -------------------------------------------------- engine helpers
    def interp(self, inline=(), opaque=(), inline_tus=(), pure=(), **kw):
        """Interpreter whose policy is: functions unknown to the committed list of function names
        (new helpers) are transparent; listed functions are opaque unless named in inline /
        defined static in a file of inline_tus."""
        inline, opaque, inline_tus = set(inline), set(opaque), set(inline_tus)

        def pred(f):
            if f.name in opaque:
                return False
            if f.name in inline:
                return True
            if f.name not in self.base:
                return True
            if f.static and f.file in inline_tus:
                return True
            return False
        I = Interp(self.P, inline=pred, pure=pure, opaque=opaque, **kw)
        return I

    def run(self, I, fname, **kw):
        ps = I.run(fname, **kw)
        self.paths += len(ps)
        self.functions |= I.analysed
        return ps

    def parallel(self, tasks):
        """Run independent analyses (callables) in forked workers and merge their obligations."""
        import multiprocessing as mp
        if len(tasks) < 2:
            for t in tasks:
                t()
            return
        global _TASKS
        _TASKS = (self, tasks)
        err = None
        with mp.get_context("fork").Pool(min(8, len(tasks))) as pool:
            for r in pool.imap(_run_task, range(len(tasks)), chunksize=1):
                if "error" in r:
                    err = err or r["error"]
                for k, v in r["counts"].items():
                    self.counts[k] = self.counts.get(k, 0) + v
                for f in r["findings"]:
                    if f["key"] not in self.keys:
                        self.keys.add(f["key"])
                        self.findings.append(f)
                self.samples += r["samples"][:max(0, 40 - len(self.samples))]
                self.functions |= r["functions"]
                self.paths += r["paths"]
                self.notes += r["notes"]
        _TASKS = None
        if err:
            raise AnalysisError(err)

    def fn(self, name):
        f = self.P.need(name)
        self.functions.add(name)
        return f


_TASKS = None


def _run_task(i):
    ctx, tasks = _TASKS
    ctx.findings, ctx.keys, ctx.samples, ctx.functions, ctx.paths, ctx.notes = [], set(), [], set(), 0, []
    ctx.counts = {}
    err = {}
    try:
        tasks[i]()
    except AnalysisError as e:
        err = {"error": str(e)}
    except Exception as e:
        err = {"error": "internal: " + "".join(traceback.format_exc()[-1500:])}
    return {**err, "counts": ctx.counts, "findings": ctx.findings, "samples": ctx.samples, "functions": ctx.functions,
            "paths": ctx.paths, "notes": ctx.notes}


def load_known(pid):
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: property=%s " % pid):
                rest = l[len("known: property=%s " % pid):]
                assert rest.startswith("key=")
                k, _, what = rest[4:].partition(" | ")
                known[k] = what
    return known


def main(pid, tier, seed):
    t0 = time.time()
    import importlib
    mod = importlib.import_module("rules." + pid.lower())
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    known = load_known(pid)
    ctx = None
    # what was found before the analysis stopped is still a violation; without one, an incomplete analysis is no answer
    found = lambda: ctx is not None and any(f["key"] not in known for f in ctx.findings)
    try:
        ctx = Ctx(pid, tier, seed)
        mod.run(ctx)
        for rid, n in getattr(mod, "FLOORS", {}).items():
            if not found():
                ctx.floor(rid, n)
    except AnalysisError as e:
        if found():
            ctx.notes.append("analysis incomplete: %s" % e)
        else:
            print("ANALYSIS-ERROR property=%s %s" % (pid, e))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return 2
    except RecursionError as e:
        print("ANALYSIS-ERROR property=%s recursion" % pid)
        return 2
    fresh = [f for f in ctx.findings if f["key"] not in known]
    old = [f for f in ctx.findings if f["key"] in known]
    total = sum(ctx.counts.values())
    rep = os.path.join(ev, pid + ".report.txt")
    with open(rep, "w") as f:
        f.write("property %s\n" % pid)
        for x in ctx.findings:
            f.write("%s rule=%s instance=%s\n  at %s\n  %s\n" %
                    ("KNOWN" if x["key"] in known else "VIOLATION", x["rule"], x["instance"], x["where"], x["msg"]))
            f.write("  key=%s\n" % x["key"])
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": mod.EXPLANATION,
            "rules": ctx.rules,
            "obligations_per_rule": ctx.counts,
            "obligations": total,
            "discharged": total - len(ctx.findings),
            "translation_units": len(ctx.P.paths),
            "functions_analysed": sorted(ctx.functions),
            "abstract_paths": ctx.paths,
            "samples": ctx.samples[:40],
            "notes": ctx.notes,
            "known_findings": [x["key"] for x in old],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for x in old:
        print("KNOWN-FINDING: property=%s %s [%s at %s]" % (pid, known[x["key"]], x["key"], x["where"]))
    print("%s: %d obligations over %d rules, %d functions, %d abstract paths, %d known, %d new" %
          (pid, total, len(ctx.counts), len(ctx.functions), ctx.paths, len(old), len(fresh)))
    for x in fresh[:12]:
        print("  %s [%s] at %s: %s" % (x["rule"], x["instance"], x["where"], x["msg"][:220]))
    if len(fresh) > 12:
        print("  ... %d more in %s" % (len(fresh) - 12, rep))
    if fresh:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0
