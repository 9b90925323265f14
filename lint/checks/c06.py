"""Symbolic summaries of every operation on a switch (off, on, force_on, restore, is_on of debug objects and
channels): on each path the final memory is compared with the initial one.  Exactly the counter that belongs to
this object's own index in this thread's array may change, by exactly the amount the operation stands for; the
paths that end in a core dump must be exactly those the property names.  Every store to a counter array anywhere
in the library is enumerated and must be one of: these operations, +1/-1 on the same slot, an initial constant."""
from core import *
from sym import *

FLOORS = {"operations": 10, "counter stores in the program": 4}
P = "libcwd::_private_::ThreadSpecificData"
NOINL = [r"^libcwd::DebugObject_ThreadSpecificData::(start|finish|fatal_finish)$", r"ThreadSpecificData::instance$",
         r"^libcwd::DebugObject::NS_init$", r"^libcwd::Channel::NS_initialize$", r"^libcwd::core_dump$"]
M1 = (1 << 32) - 1


REACHED = ((0, 0x7fffffff), (M1, M1))       # a channel's counter is never below -1 (what is shown here, by induction)


class S(Sym):
    pure = (r"^std::", r"^operator<<")

    def known(self, fl, st, ins, args, c):
        if c.endswith("ThreadSpecificData::instance"):
            return ("val", ("o", "tsd"))
        if c.endswith("::fatal_finish") or c == "libcwd::core_dump" or c == "abort":
            self.event(st, "fatal")
            self.end(fl, st, ins)
            return None
        return None


def run(ctx):
    prog = inl(dump=[r"^libcwd::(DebugObject|Channel)::(on|off|force_on|restore|is_on)$", r"^w_sw_"],
               noinline=NOINL, witnesses=["switches.cc"])
    for cls, arr in (("DebugObject", "debug_object_off_array"), ("Channel", "off_cnt_array")):
        for op in ("off", "on", "force_on", "restore", "is_on"):
            fn = prog.one("w_sw_%s_%s" % (cls, op))
            ctx.analysed(fn)
            ctx.count("operations")
            r = S(ctx)
            fl = analyse(fn, r)
            check(ctx, prog, fn, fl, r, cls, arr, op)
    stores(ctx)


def check(ctx, prog, fn, fl, r, cls, arr, op):
    name = cls + "::" + op
    aoff = prog.offset(P, arr)
    ixoff = prog.offset("libcwd::" + cls, "index_")

    def slot(n):
        return fl.mk_idx(("o", "tsd"), aoff, [(("m%d" % n, fl.mk_add(("a", 0), ixoff)), 4)])
    bad = lambda ins, msg: ctx.violation("switch|" + name, name + "() " + msg, ins.where())
    if not r.rets:
        raise Broken(name + " never returns")
    for st, ins in r.ends:
        e = 0
        t = ("m0", slot(0))
        f = fl.possible(st, t, 32)
        if cls == "Channel":
            f = inter(f, REACHED)
        if op == "on" and cls == "Channel":
            if f != ((M1, M1),):
                bad(ins, "ends in a core dump although the channel is not fully on (counter in %s)" % (f[:3],))
            else:
                ctx.ok(name + ": core dump only when fully on")
        elif op == "restore":
            if inter(f, ((M1, M1),)):
                bad(ins, "ends in a core dump although the calls were balanced")
            else:
                ctx.ok(name + ": core dump only when unbalanced")
        else:
            bad(ins, "can end in a core dump")
    for st, ins, val in r.rets:
        ev = [e[0] for e in r.events(st)]
        n = st.p[1]
        s = slot(n)
        old = ("m%d" % n, s)
        f = fl.possible(st, old, 32)
        if cls == "Channel":
            f = inter(f, REACHED)
        ch = r.changed(fl, st)
        if op == "is_on":
            if ch:
                bad(ins, "changes memory")
            for k, on in ((M1, True), (0, False), (1, False), (2, False)):
                if fl.consistent(st, {old: k}):
                    x = fl.evalterm(val, {old: k})
                    if x is None:
                        raise Broken(name + ": not a function of the counter")
                    if (x & 1) != on:
                        bad(ins, "is %s for counter %d" % (bool(x & 1), k - (1 << 32) if k == M1 else k))
                    else:
                        ctx.ok("%s: counter %s -> %s" % (name, "-1" if k == M1 else k, on))
            continue
        if op in ("off", "on"):
            want = fl.mk_add(old, 1 if op == "off" else -1)
            got = {a: v for a, v in ch.items()}
            if set(got) != {s} or not same(fl, got[s], old, 1 if op == "off" else -1):
                bad(ins, "does not change exactly its own counter by %+d (changes %s)" % (1 if op == "off" else -1, show_changes(fl, got)))
            else:
                ctx.ok("%s: own counter %+d, nothing else" % (name, 1 if op == "off" else -1))
            if op == "on" and cls == "Channel" and inter(f, ((M1, M1),)):
                bad(ins, "returns although the channel was already fully on")
        elif op == "force_on":
            init = [x for x in ev if x.endswith(("::NS_init", "::NS_initialize"))]
            if not init:
                bad(ins, "does not initialize the object first")
            state = ("a", 1)
            if set(ch) != {s, state} or ch[s] not in (C(-1), C(M1)) or ch[state] != old:
                bad(ins, "does not save its own counter and set it to -1 (changes %s)" % show_changes(fl, ch))
            else:
                ctx.ok(name + ": saves the counter, sets it to -1")
        elif op == "restore":
            state = ("m%d" % n, ("a", 1))
            if inter(f, compl(((M1, M1),), 32)):
                bad(ins, "returns without having verified that the calls in between were balanced")
            elif set(ch) - {s} or st.mem.get(s) != state:
                bad(ins, "does not restore exactly the saved value (changes %s)" % show_changes(fl, ch))
            else:
                ctx.ok(name + ": restores the saved value after verifying balance")


def same(fl, v, old, k):
    for x in (0, 1, 5, M1, M1 - 3, 1 << 20):
        y = fl.evalterm(v, {old: x})
        if y is None or (y & M1) != ((x + k) & M1):
            return False
    return v == fl.mk_add(old, k) or v[0] in ("op", "+")


def show_changes(fl, ch):
    return "; ".join("%s := %s" % (fl.fldof.get(a, a), str(v)[:60]) for a, v in ch.items()) or "nothing"


def stores(ctx):
    """all writes to the counter arrays"""
    prog = raw()
    flds = (P + "::off_cnt_array", P + "::debug_object_off_array")
    for f in prog.fns.values():
        for i in f.instrs():
            if i.op not in ("store", "atomicrmw", "cmpxchg"):
                continue
            a = i.ops[1] if i.op == "store" else i.ops[0]
            p = f.path(a)
            m = re.search(r"\.(off_cnt_array|debug_object_off_array)\[", p)
            if not m:
                continue
            ctx.count("counter stores in the program")
            v = f.path(i.ops[0])
            if i.op != "store":
                ctx.violation("store|" + f.base, "%s writes a switch counter in an unknown way" % f.dem, i.where())
                continue
            vals = value_kind(f, i.ops[0], p)
            if vals is None:
                ctx.violation("store|" + f.base, "%s stores %s in a switch counter" % (f.dem, v[:120]), i.where())
            else:
                ctx.ok("%s: %s stores %s" % (i.where(), f.base, vals))


def value_kind(f, v, p, depth=0):
    c = f.const(v)
    if c is not None:
        return "constant %d" % c if c in (0, -1, M1) else None
    i = f.defi(v)
    if i is None:
        return "a parameter"
    if i.op in ("add", "sub"):
        k = f.const(i.ops[1])
        src = f.path(i.ops[0])
        if k in (1, -1, M1) and (src == "*" + p or "off" in src):
            return "its own value %s 1" % i.op
        return None
    if i.op == "select":
        a, b = value_kind(f, i.ops[1], p), value_kind(f, i.ops[2], p)
        return "%s or %s" % (a, b) if a and b else None
    if i.op == "phi" and depth < 3:
        l = [value_kind(f, x, p, depth + 1) for x, _ in i.get("in")]
        return " or ".join(l) if all(l) else None
    if i.op == "load":
        s = f.path(i.ops[0])
        return "a saved value" if s.endswith("off_cnt") or "[" not in s else None
    return None
