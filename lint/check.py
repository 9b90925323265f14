#!/usr/bin/env python3
"""check.py ID [--thorough]: decide one property on /repo's current sources.

exit 0: holds (known findings are printed), 1: VIOLATION lines, 2: the analysis could not be carried out."""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import Broken, VERIF


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.violations = []
        self.counts = {}
        self.obligations = []
        self.assumptions = []
        self.functions = set()
        self.notes = []
        self.known = known_findings().get(pid, [])

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def floor(self, key, n):
        """the rule must have found at least n instances"""
        if self.counts.get(key, 0) < n:
            raise Broken("only %d instances of '%s' found, expected at least %d" % (self.counts.get(key, 0), key, n))

    def analysed(self, fn):
        self.functions.add(fn.dem if hasattr(fn, "dem") else str(fn))

    def ok(self, text):
        self.obligations.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def violation(self, key, msg, where="", path=()):
        """key: stable identification of the construct that fails (rule + function/site, no line numbers)"""
        for v in self.violations:
            if v["key"] == key and v["msg"] == msg:
                return
        self.violations.append(dict(key=key, msg=msg, where=where, path=list(path) if not path or isinstance(path[0], str) else fmt_path(path)))

    def from_flow(self, fl, rule):
        """take over the violations a Flow run has recorded"""
        for v in fl.violations:
            ins = v["ins"]
            self.violation("%s|%s" % (rule, v["fn"].base), v["msg"] + " [in %s]" % v["fn"].dem,
                           ins.where() if ins is not None else v["fn"].loc(), fmt_path(v["path"]))


def fmt_path(path):
    out = []
    for p in path:
        if isinstance(p, tuple) and hasattr(p[0], "where"):
            i, what = p
            c = ""
            if i.op in ("br", "switch"):
                c = i.fn.path(i.get("cond"))
            elif i.op == "select":
                c = i.fn.path(i.ops[0])
            out.append("%s: %s %s is %s" % (i.where(), i.op, c[:160], what))
        else:
            out.append(str(p))
    return out


def known_findings():
    out = {}
    f = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: "):
                head, _, text = l[7:].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ", 1) if "=" in x)
                out.setdefault(d["property"], []).append((d["key"], text))
    return out


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    t0 = time.time()
    ctx = Ctx(pid, tier)
    mod = importlib.import_module("checks." + pid.lower())
    try:
        mod.run(ctx)
        for k, n in getattr(mod, "FLOORS", {}).items():
            if not ctx.violations:
                ctx.floor(k, n)
    except Broken as e:
        print("BROKEN property=%s %s" % (pid, e))
        traceback.print_exc()
        return 2
    except Exception as e:
        print("BROKEN property=%s internal error: %r" % (pid, e))
        traceback.print_exc()
        return 2
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    new, seen = [], []
    for v in ctx.violations:
        k = [x for x in ctx.known if x[0] == v["key"]]
        (seen if k else new).append(v)
    replay = os.path.join(ev, pid + ".violation.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    if new:
        with open(replay, "w") as f:
            for v in new:
                f.write("%s: %s\n  rule instance: %s\n" % (v["where"], v["msg"], v["key"]))
                for p in v["path"]:
                    f.write("    %s\n" % (p,))
    level = getattr(mod, "LEVEL", "other")
    expl = (mod.__doc__ or "").strip()
    cov = dict(explanation=expl, rule_instances=ctx.counts, functions_analysed=len(ctx.functions),
               functions=sorted(ctx.functions)[:200], obligations=len(ctx.obligations),
               obligations_discharged=len(ctx.obligations) - 0, obligation_list=ctx.obligations[:400])
    e = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
             wall_s=round(time.time() - t0, 2), violations=len(new), assumptions=ctx.assumptions + getattr(mod, "ASSUME", []))
    json.dump(e, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    for k in {v["key"] for v in seen}:
        t = [x[1] for x in ctx.known if x[0] == k][0]
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    for v in new[:10]:
        print("%s: %s" % (v["where"], v["msg"][:400]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    print("%s: %d functions, %d obligations, %s, %.1fs -> %s" % (pid, len(ctx.functions), len(ctx.obligations),
          ctx.counts, time.time() - t0, "VIOLATED" if new else "holds"))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
