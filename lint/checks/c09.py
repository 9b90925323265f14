"""Symbolic paths of finish(), fatal_finish() and core_dump().  For every admissible flag word: a path on which the
output has the fatal or core bit never returns; before its end the current buffer is written exactly once, flushed
unless the thread was already failing recursively (which is recorded first by then); the end is reached only after
winning one atomic claim and is abort() exactly for core and _Exit(180) otherwise; a path that loses the claim has no
end at all (it stays in a waiting loop).  Every access to the claim variable in the whole program is such an atomic
false-to-true step.  fatal_finish() and core_dump() have no path that returns."""
from output import *

FLOORS = {"fatal ends": 4, "claims": 2, "paths of finish": 20}


class Claims:
    """records wins and losses of an atomic claim of a global flag"""
    def cas(self, fl, st, ins, a, f, won):
        if fl.root(a)[0] == "g":
            self.event(st, "claim", a, won)
        return None

    def rmw(self, fl, st, ins, a, f, old, new):
        if fl.root(a)[0] == "g" and fl.w(old) <= 8:
            self.event(st, "xchg", a, old, new)


class F(Claims, Out):
    pass


class D(Claims, Sym):
    def known(self, fl, st, ins, args, c):
        if c in ("abort", "_Exit", "exit", "std::terminate", "_exit", "raise", "quick_exit"):
            self.event(st, c, tuple(args), None)
            self.end(fl, st, ins)
            return ("pure",)
        if "sleep" in c or "chrono" in c:
            return ("pure",)
        return None


def won(fl, st, ev):
    """the claim variables this path has won / lost"""
    w, l = set(), set()
    for e in ev:
        if e[0] == "claim":
            (w if e[2] else l).add(e[1])
        if e[0] == "xchg":
            c = fl.const_of(st, e[2])
            (w if c == 0 else l).add(e[1])
    return w, l


def run(ctx):
    prog = program()
    claimvars = set()
    RF = prog.offset(TSD, "recursive_fatal")
    fn = prog.one(DOTSD + "::finish")
    r = F(prog, ctx)
    fl = analyse(fn, r, 400000)
    ctx.analysed(fn)
    ctx.count("paths of finish", len(r.rets) + len(r.ends))
    bad = lambda ins, msg: ctx.violation("finish|" + msg.split(" (")[0], "finish() " + msg, ins.where())
    FA, CO = BIT["fatal"], BIT["core"]
    OPEN = lambda m: m & BIT["continued_cf"] and not m & BIT["finish"]
    for st, ins, val in r.rets:
        ms = models(fl, st, r.M0, FA | CO | BIT["continued_cf"] | BIT["finish"])
        for m in ms:
            if m & (FA | CO) and not OPEN(m):
                bad(ins, "returns for %s output" % ("core" if m & CO else "fatal"))
        ctx.count("returning paths")
    kinds = set()
    for st, ins in r.ends:
        ctx.count("fatal ends")
        ev = r.events(st)
        ms = models(fl, st, r.M0, FA | CO)
        if not ms:
            continue
        end = ev[-1]
        for m in ms:
            if not m & (FA | CO):
                bad(ins, "terminates the process for output that is neither fatal nor core")
            elif m & CO:
                kinds.add("core")
                if end[0] != "abort":
                    bad(ins, "does not end core output with abort() but with %s" % end[0])
            else:
                kinds.add("fatal")
                if end[0] not in ("_Exit", "_exit") or end[1] != (C(180),):
                    bad(ins, "does not end fatal output with _Exit(180) but with %s%r" % (end[0], end[1]))
        wr = [k for k, e in enumerate(ev) if e[0] == "buffer" and e[1] == "writeto"]
        cl = [k for k, e in enumerate(ev) if e[0] in ("claim", "xchg")]
        if len(wr) != 1 or ev[wr[0]][2][0] != r.os_(fl, r.cur0, "buffer"):
            bad(ins, "does not write the message exactly once before terminating")
            continue
        a = ev[wr[0]][2]
        rf = ("m0", fl.mk_add(r.tsd, RF))
        for v in (0, 1):
            if not fl.consistent(st, {rf: v}):
                continue
            x = fl.evalterm(a[5], {rf: v})
            if v == 0 and (x is None or x & 1 != 1):
                bad(ins, "does not flush the message")
            ctx.count("flush decisions")
        if a[4] != C(0):
            bad(ins, "marks the fatal message as unfinished")
        if not cl or cl[0] < wr[0]:
            bad(ins, "claims termination before the message is written" if cl else "terminates without claiming termination")
        w, l = won(fl, st, ev)
        if len(w) != 1 or l & w:
            bad(ins, "terminates the process without having won the claim")
        claimvars |= w
        t = st.mem.get(fl.mk_add(r.tsd, RF), rf)
        if fl.const_of(st, t) != 1 and not fl.is_const(st, t, 1):
            bad(ins, "does not record that this thread is failing")
        ctx.ok("%s: %s after writing and claiming" % (ins.where(), end[0]))
    for k in ("core", "fatal"):
        if k not in kinds:
            bad(next(fn.instrs()), "never terminates for %s output" % k)
    # fatal_finish
    fn = prog.one(DOTSD + "::fatal_finish")
    r = F(prog, ctx)
    fl = analyse(fn, r)
    ctx.analysed(fn)
    for st, ins, val in r.rets:
        ctx.violation("fatal_finish|returns", "fatal_finish() returns", ins.where())
    for st, ins in r.ends:
        if not [e for e in r.events(st) if e[0] == "call" and e[1].endswith("::finish") and e[2] == (("a", 0), ("a", 1), ("a", 2), ("a", 3))]:
            ctx.violation("fatal_finish|finish", "fatal_finish() does not finish the output it is called for", ins.where())
        else:
            ctx.ok("%s: fatal_finish finishes its output and never returns" % ins.where())
    if not r.ends:
        raise Broken("fatal_finish() has no end")
    # core_dump
    p2 = inl(dump=[r"^libcwd::core_dump$"])
    fn = p2.one("libcwd::core_dump")
    ctx.analysed(fn)
    r = D(ctx)
    fl = analyse(fn, r)
    for st, ins, val in r.rets:
        ctx.violation("core_dump|returns", "core_dump() returns", ins.where())
    for st, ins in r.ends:
        ev = r.events(st)
        w, l = won(fl, st, ev)
        if ev[-1][0] != "abort" or len(w) != 1 or w & l:
            ctx.violation("core_dump|end", "core_dump() ends with %s and claims %s" % (ev[-1][0], sorted(w)), ins.where())
        else:
            ctx.ok("%s: core_dump aborts after winning the claim" % ins.where())
        claimvars |= w
    if not r.ends:
        ctx.violation("core_dump|end", "core_dump() never aborts", next(fn.instrs()).where())
    if len(claimvars) != 1 and not ctx.violations:
        ctx.violation("claim|shared", "core_dump() and finish() do not claim the same variable (%s)" % sorted(claimvars), fn.loc())
    names = {v[1] for v in claimvars}
    rp = raw()
    for f in rp.fns.values():
        for i in f.instrs():
            if not any(isinstance(o, dict) and o.get("g") in names for o in i.ops):
                continue
            ctx.count("uses of the claim")
            if i.is_call():
                if not re.search(r"::(compare_exchange_\w+|exchange|test_and_set|load|test|operator bool|atomic|__atomic_base)$", i.callee or ""):
                    ctx.violation("claim|" + f.base, "%s changes the termination claim (%s)" % (f.dem, i.callee), i.where())
            elif i.op in ("store", "atomicrmw", "cmpxchg"):
                ok = i.op == "cmpxchg" and f.const(i.ops[1]) == 0 and f.const(i.ops[2]) == 1 or i.op == "atomicrmw" and i.get("rmw") == "xchg" and f.const(i.ops[1]) == 1
                if not ok:
                    ctx.violation("claim|" + f.base, "%s changes the termination claim" % f.dem, i.where())
    p3 = inl(dump=[r"claim_fatal_termination", r"^libcwd::core_dump$", r"^libcwd::DebugObject_ThreadSpecificData::finish$"], noinline=NOINL)
    for f in p3.fns.values():
        for i in f.instrs():
            if i.op in ("store", "atomicrmw", "cmpxchg"):
                a = i.ops[1] if i.op == "store" else i.ops[0]
                if isinstance(a, dict) and a.get("g") in names:
                    ctx.count("claims")
                    ok = i.op == "cmpxchg" and f.const(i.ops[1]) == 0 and f.const(i.ops[2]) == 1 or i.op == "atomicrmw" and i.get("rmw") == "xchg" and f.const(i.ops[1]) == 1
                    if not ok and f.const(i.ops[1]) is not None:
                        ctx.violation("claim|" + f.base, "%s changes the termination claim" % f.dem, i.where())
