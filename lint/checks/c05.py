"""Lockset, lifetime and lock-order rules for the registries (lists of channels, debug objects, loaded object files with
their data, and dynamic loader records), which are reachable only through access objects.  On every path, exceptional ones
included, of every function that holds an access object (helpers inlined): data, and pointers and iterators derived from
it, are used only while the lock they were obtained under is held, modified only under the write lock; locks pair up and
nothing is locked twice, directly or through a call or callback; an insertion is preceded by its lookup in the same
critical section or its own result decides; symbols are loaded only under the write lock after finding in that section
that they were not; no function that searches for debug information is called while a lock is held; the order in
which the locks are taken has no cycle; the label width changes only under the write lock of the channels."""
from registry import *

FLOORS = {"data accesses": 15, "lock acquisitions": 14, "uses of registry data": 30, "insertions": 5, "symbol loads": 2, "changes of the label width": 2}


def run(ctx):
    rp = raw()
    rt, types = roots(rp)
    search = closure(rp, {i.get("callee") for f in rp.fns.values() for i in f.calls(r"^(dwfl_(?!err|version|end)|debuginfod_)") })
    if len(search) < 3:
        raise Broken("no search for debug information found")
    lockers = {}
    for x, ts in types.items():
        for t in ts:
            lockers.setdefault(key(t), set()).add(x)
    reach_lock = {t: closure(rp, fs) for t, fs in lockers.items()}
    prog = inl(dump=["^" + re.escape(f.base) + "$" for f in rt.values()], noinline=REG_NOINL)
    order = set()
    from collections import Counter
    for r in rt.values():
        fn = prog.fns.get(r.name)
        if fn is None:
            raise Broken("anchor vanished: " + r.dem)
        rule = Locks(ctx, prog, fn, search, reach_lock)
        analyse(fn, rule, 400000)
        ctx.analysed(fn)
        bad = list(rule.v)
        if not iterated(rp, r):
            bad += rule.extra
        else:
            ctx.assume("dl_iterate_phdr calls back %s under the lock of the dynamic loader" % r.base)
        order |= rule.order
        for ins, msg in bad:
            ctx.violation("%s|%s" % (fn.base, re.sub(r"calls (\S+)", "calls", msg)), "%s %s" % (fn.base, msg), ins.where())
        if not bad:
            ctx.ok("%s: every path" % fn.dem)
    # lock order
    nxt = {}
    for a, b, w in order:
        if a != b:
            nxt.setdefault(a, set()).add(b)
    for a, b, w in order:
        ctx.count("lock order edges")
        seen, work = set(), [b]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work += nxt.get(x, ())
        if a != b and a in seen:
            ctx.violation("order|%s|%s" % (a, b), "the locks on %s and %s are taken in both orders" % (a, b), w)
    # callbacks run under the read lock of the list that is iterated
    n = 0
    for f in rp.fns.values():
        for i in f.calls(r"::(DebugChannels|DebugObjects)::for_each_impl$"):
            t = key(next(iter(types.get(i.get("callee"), {"?"}))))
            for cb in callbacks(rp, f, i):
                n += 1
                if cb in reach_lock.get(t, ()):
                    ctx.violation("callback|" + rp.base(cb), "the callback %s, run under the lock on %s, locks that list again" % (rp.dem(cb), t), i.where())
    ctx.count("callbacks", n)
    # the label width
    inside = {r.name for r in rt.values()}
    for f in rp.fns.values():
        for i in f.instrs():
            o = i.ops[1] if i.op == "store" and len(i.ops) > 1 else i.ops[0] if i.ops and (i.op in ("atomicrmw", "cmpxchg") or i.is_call() and re.search(r"std::(atomic|__atomic_base)<.*>::(operator(=|\+\+|--|\+=)|store|exchange)", i.callee or "")) else None
            if isinstance(o, dict) and "WST_max_len" in str(o.get("g", "")) and f.name not in inside and not i.fn.base.startswith(("__cxx", "_GLOBAL")):
                ctx.violation("width|" + f.base, "%s changes the common label width without the lock on the channels" % f.dem, i.where())


def iterated(rp, fn):
    """is fn only used as callback of dl_iterate_phdr?"""
    ok = False
    for f in rp.fns.values():
        for i in f.calls():
            if i.get("callee") == fn.name:
                return False
            if any(isinstance(o, dict) and o.get("f") == fn.name for o in i.ops):
                if i.callee != "dl_iterate_phdr":
                    return False
                ok = True
    return ok


def callbacks(rp, f, i):
    """functions that can be passed as callback at this call"""
    out = set()
    for o in i.ops:
        if isinstance(o, dict) and "f" in o:
            out.add(o["f"])
        x = f.defi(f.strip(o)) if isinstance(o, int) else None
        if x is not None and x.is_call() and x.get("callee") in rp.fns:        # conversion of a lambda
            for j in rp.fns[x.get("callee")].instrs():
                for p in j.ops:
                    if isinstance(p, dict) and "f" in p:
                        out.add(p["f"])
        if isinstance(o, int) and o < len(f.args):
            for g in rp.fns.values():
                for j in g.calls():
                    if j.get("callee") == f.name and o < len(j.ops):
                        p = j.ops[o]
                        if isinstance(p, dict) and "f" in p:
                            out.add(p["f"])
                        y = g.defi(g.strip(p)) if isinstance(p, int) else None
                        if y is not None and y.is_call() and y.get("callee") in rp.fns:
                            for k in rp.fns[y.get("callee")].instrs():
                                for q in k.ops:
                                    if isinstance(q, dict) and "f" in q:
                                        out.add(q["f"])
    return out
