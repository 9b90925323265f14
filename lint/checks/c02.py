"""Compile-fail witness and call-sequence comparison in the configuration without CWDEBUG.

nodebug_names.cc uses every debug macro with operands that do not exist anywhere: it only compiles when the
macro drops them unseen (with CWDEBUG-style expansion it fails; that is the positive control).  In the compiled
functions the sequence of calls on every path is compared with that of the same code without the debug
statement (if/else bodies, loop bodies).  For the fatal macros every path from the statement must evaluate the
operands once, write them and end in exit() with a failing status: no return is reachable behind it."""
from core import *
from sym import *

FLOORS = {"non-fatal macros": 9, "control-flow functions": 17, "fatal functions": 4}
MACROS = ["Debug", "Dout", "DoutEntering", "ForAllDebugChannels", "ForAllDebugObjects", "LibcwDebug", "LibcwDout",
          "LibcwdForAllDebugChannels", "LibcwdForAllDebugObjects"]


def try_compile(src, *flags):
    d = tempfile.mkdtemp(prefix="nd", dir=BUILD)
    try:
        gen = os.path.join(d, "gen")
        gen_config(gen)
        r = sh(["clang++", "-std=c++20", "-w", "-fsyntax-only", "-I" + gen, "-I" + REPO] + list(flags) + [src])
        return r.returncode, r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Seq(Sym):
    def known(self, fl, st, ins, args, c):
        if c in ("w_before", "w_after", "w_cond", "w_then", "w_else", "w_operand"):
            if c == "w_cond":       # which branch belongs to which outcome matters
                t = st.copy()
                self.event(st, "w_cond=0")
                self.event(t, "w_cond=1")
                return [(st, ("c", 0)), (t, ("c", 1))]
            if not (c == "w_before" and self.events(st) and self.events(st)[-1] == (c,)):   # a loop condition counts once
                self.event(st, c)
            return ("pure",)
        return None


def seqs(fn):
    """the call sequences of all paths (loops cut after the states repeat)"""
    r = Seq()
    r.unroll = 1
    fl = analyse(fn, r)
    return {tuple(e[0] for e in r.events(st)) for st, i, v in r.rets}, {tuple(e[0] for e in r.events(st)) for st, i in r.ends}, r, fl


def run(ctx):
    if not os.path.exists(os.path.join(REPO, "nodebug.h")):
        raise Broken("anchor vanished: nodebug.h")
    os.makedirs(BUILD, exist_ok=True)
    names = os.path.join(VERIF, "witness", "nodebug_names.cc")
    rc, err = try_compile(names)
    ctx.count("non-fatal macros", len(MACROS))
    if rc:
        # control: is it the macros?
        first = [l for l in err.splitlines() if "error:" in l][:3]
        ctl = sh(["clang++", "-std=c++20", "-w", "-fsyntax-only", "-I" + REPO, "-x", "c++", "-"], input="#include <cstdlib>\n#include <iostream>\n#include \"nodebug.h\"\nint main(){}\n")
        if ctl.returncode:
            raise Broken("nodebug.h itself does not compile: " + ctl.stderr[:300])
        ctx.violation("names", "without CWDEBUG a debug macro still uses its operands: " + " / ".join(first), "nodebug.h", first)
        return
    for m in MACROS:
        ctx.ok("%s drops operands that name nothing" % m)
    ctl = sh(["clang++", "-std=c++20", "-w", "-fsyntax-only", "-x", "c++", "-"], input="#define Dout(c, ...) std_use(__VA_ARGS__)\nint f(){ Dout(dc::x, no_such_name); return 0; }\n")
    if ctl.returncode == 0:
        raise Broken("positive control: a macro that uses its operands compiles")
    prog = build("inl", ["dump ^w_(names|sole|body|fatal)"], witnesses=[("nodebug_names.cc", "-UCWDEBUG"), ("nodebug_fatal.cc", "-UCWDEBUG")], tus=[])
    want = {}
    for fn in prog.match(r"^w_(names|sole_|body_)"):
        ctx.analysed(fn)
        ctx.count("control-flow functions")
        calls, ends, r, fl = seqs(fn)
        if fn.base == "w_names":
            exp = {("w_before", "w_after")}
        elif fn.base.startswith("w_sole_"):
            exp = {("w_cond=1", "w_after"), ("w_cond=0", "w_else", "w_after")}
        else:
            exp = None
            ok = all(c[:2] == ("w_cond=1", "w_then") or c[0] == "w_cond=0" and c[1] != "w_then" for c in calls)
            ok = ok and all(c[-1] == "w_after" and set(c[2 if c[1] == "w_then" else 1:-1]) == {"w_before"} for c in calls)
            ok = ok and {c[0] for c in calls} == {"w_cond=0", "w_cond=1"}
            if not ok or ends:
                ctx.violation("flow|" + fn.base, "%s: calls %s" % (fn.base, sorted(calls)[:4]), fn.loc())
            else:
                ctx.ok("%s: control flow as without the statement" % fn.base)
        if exp is not None:
            if calls != exp or ends:
                ctx.violation("flow|" + fn.base, "%s: calls %s instead of %s" % (fn.base, sorted(calls), sorted(exp)), fn.loc())
            else:
                ctx.ok("%s: calls %s" % (fn.base, sorted(calls)))
    for fn in prog.match(r"^w_fatal"):
        ctx.analysed(fn)
        ctx.count("fatal functions")
        calls, ends, r, fl = seqs(fn)
        isif = fn.base.startswith("w_fatalif")
        if any("w_operand" in c for c in calls) or (calls and not isif) or (isif and calls != {("w_cond=0", "w_else", "w_after")}):
            ctx.violation("fatal|" + fn.base, "%s: a fatal statement can return (paths that return: %s)" % (fn.base, sorted(calls)[:4]), fn.loc())
            continue
        if not ends:
            raise Broken("%s never ends" % fn.base)
        for st, ins in r.ends:
            ev = r.events(st)
            n = [e[0] for e in ev]
            last = ev[-1]
            if n.count("w_operand") != 1 or not any("operator<<" in x for x in n):
                ctx.violation("fatal|" + fn.base, "%s: the message is not written exactly once (%s)" % (fn.base, n), fn.loc())
            elif last[0] in ("exit", "_exit", "std::exit", "quick_exit") and last[1][0][0] == "c" and last[1][0][1] & 255:
                ctx.ok("%s ends in %s(%d)" % (fn.base, last[0], last[1][0][1]))
            elif last[0] in ("abort", "std::terminate"):
                ctx.ok("%s ends in %s" % (fn.base, last[0]))
            else:
                ctx.violation("fatal|" + fn.base, "%s does not end with a failing exit (%s)" % (fn.base, last[0]), fn.loc())
