"""Typestate of the output stream of a debug object over every path of every function that reaches it (OstreamState
inlined): each write to the stream happens while the lock that was read together with that stream inside the internal
section is held, or when that lock is known to be absent; only the lock that is held is unlocked, it is never held at a
return, never when fatal output starts; the result of try_lock() decides whether it is held; the thread is marked as
holding the lock only while it does.  Writing without the lock is accepted only after try_lock() failed on a path that
ends the program.  The adapter classes forward lock, unlock and try_lock (with its truth value) to the user's lock."""
from ostate import *

FLOORS = {"writes to the stream": 8, "lock acquisitions": 4, "adapter methods": 6}


class Ad(Sym):
    def known(self, fl, st, ins, args, c):
        m = re.search(r"^(ProbeLock|std::mutex)::(lock|unlock|try_lock)$", c)
        if m:
            t = ("o", "result")
            fl.wd[t] = 1
            self.event(st, m.group(2), args[0])
            return ("val", t) if m.group(2) == "try_lock" else ("pure",)
        return None


def run(ctx):
    rp, prog, roots = check(ctx, "C03")
    inside = {r.name for r in roots.values()}
    for f in rp.fns.values():
        for i in f.instrs():
            if i.op in ("load", "store") and f.fld(i) in ("libcwd::DebugObject::newlineless_tsd_", "libcwd::DebugObject::unfinished_oss_"):
                if f.name not in inside and not re.search(r"::(NS_init|DebugObject)$", f.base):
                    ctx.violation("line|" + f.base, "%s uses the record of the unfinished line without the stream's lock" % f.dem, i.where())
    p2 = inl(dump=[r"^libcwd::_private_::LockInterface<.*>::(lock|unlock|try_lock)$"], witnesses=["lock.cc"])
    for f in p2.fns.values():
        m = re.search(r"LockInterface<.*>::(lock|unlock|try_lock)$", f.base)
        if not m:
            continue
        ctx.count("adapter methods")
        ctx.analysed(f)
        rule = Ad(ctx)
        fl = analyse(f, rule)
        ok = bool(rule.rets)
        for st, ins, val in rule.rets:
            ev = rule.events(st)
            if [e[0] for e in ev] != [m.group(1)] or ev[0][1][0] != "m0":
                ok = False
            if m.group(1) == "try_lock" and ok:
                t = ("o", "result")
                for x in (0, 1):
                    if fl.consistent(st, {t: x}):
                        y = fl.evalterm(val, {t: x})
                        if y is None or (y != 0) != (x != 0):
                            ok = False
        if not ok:
            ctx.violation("adapter|" + f.base, "%s does not forward to the user's lock" % f.dem, f.loc())
        else:
            ctx.ok("%s forwards" % f.dem)
