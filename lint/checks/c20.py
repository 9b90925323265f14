"""Transition table of the pointer, computed from the code.

Every operation (constructors, copies, assignments from another pointer, from one of a derived type and to itself, lock, unlock,
reset, release, the accessors and the destructor; for the array form and the single-object form) is analysed with all
calls inlined, once for each of the owner/locked states of the pointers involved (symbolic object pointer).  Every path
that returns must lead to the state the ownership rules give, hand out the right value, and delete the object of the
pointer exactly when it owned one and gives it up, in the form its kind demands.  Ownership by at most one, and one
deletion, then hold after any sequence of operations, by induction over the sequence."""
from core import *
from sym import *
import itertools

FLOORS = {"operations": 30, "transitions": 100, "returns": 100}
TECHNIQUE = "path-sensitive symbolic transition table of every operation over all owner/locked states"

DEL = {"a": r"^operator delete\[\]$", "s": r"^operator delete$", "d": r"^operator delete$"}


class Op(Sym):
    stop = ()

    def __init__(self, facts):
        Sym.__init__(self)
        self.facts0 = facts

    def start(self, fl, st):
        Sym.start(self, fl, st)
        for t, v in self.facts0.items():
            fl.wd[t] = 8
            st.facts[t] = ((v, v),)

    def known(self, fl, st, ins, args, c):
        if re.match(r"operator delete(\[\])?$", c):
            self.event(st, "delete", c, args[0])
            return ("pure",)
        if re.search(r"^(abort|libcwd::core_dump|__assert_fail|std::abort)$|assert_fail|::fatal_finish$", c):
            st.dead = True
            return ("pure",)
        return None


def field(prog, name):
    """address of the member an accessor returns"""
    fn = prog.one(name)
    r = Op({})
    fl = analyse(fn, r)
    out = set()
    for st, ins, v in r.rets:
        while v is not None and v[0] in ("trunc", "zext", "and", "ne", "band"):
            v = next((x for x in v[1:] if isinstance(x, tuple) and x and x[0] != "c"), None)
        out.add(v)
    out.discard(None)
    out = {v for v in out if v[0] == "m0"}
    if len(out) != 1:
        raise Broken("what %s returns is not understood: %s" % (name, sorted(map(str, out))[:3]))
    a = out.pop()[1]
    return a[2] if a[0] == "+" else 0


def run(ctx):
    prog = inl(dump=[r"^w_[asd]_"], witnesses=["autoptr.cc"], noinline=[r"^libcwd::core_dump$", r"::instance$", r"::fatal_finish$", r"assert_fail"])
    offs = {}
    for k in "as":
        offs[k] = (field(prog, "w_%s_get" % k), field(prog, "w_%s_owner" % k), field(prog, "w_%s_strict" % k))
    offs["d"] = offs["s"]
    for fn in sorted((f for f in prog.fns.values() if re.match(r"w_[asd]_", f.base) and f.blocks), key=lambda f: f.base):
        k, op = fn.base[2], fn.base[4:]
        ctx.analysed(fn)
        ctx.count("operations")
        two = op in ("copy", "assign")
        po, oo, lo = offs[k]
        G = prog.globals
        ga, gb = ("g", "a_" + k), ("g", "b_" + k)
        bad = False
        probe = analyse(fn, Op({}))
        for o, l, ro, rl in itertools.product((0, 1), repeat=4):
            if not two and (ro or rl):
                continue
            if op in ("copy", "construct", "default") and (o or l):
                continue        # the memory of a new object
            ctx.count("transitions")
            fl = probe
            A = [fl.mk_add(ga, x) for x in (po, oo, lo)]
            B = [fl.mk_add(gb, x) for x in (po, oo, lo)]
            r = Op({("m0", A[1]): o, ("m0", A[2]): l})
            if two:
                r.facts0.update({("m0", B[1]): ro, ("m0", B[2]): rl})
            fl = analyse(fn, r)
            if not r.rets:
                if op in ("release", "lock", "strict") and not o:
                    continue        # asserted
                ctx.violation("autoptr|%s|noreturn" % fn.base, "%s does not return with owner %d, locked %d" % (op, o, l), fn.where())
                continue
            for st, ins, val in r.rets:
                ctx.count("returns")
                msg = judge(fl, st, r, fn, k, op, o, l, ro, rl, A, B, val)
                if msg:
                    bad = True
                    ctx.violation("autoptr|%s|%s" % (fn.base, msg), "%s pointer, %s%s: %s (owner %d, locked %d%s)" % (
                        "array" if k == "a" else "object", op, " from a derived type" if k == "d" else "", msg, o, l,
                        ", source owner %d, locked %d" % (ro, rl) if two else ""), ins.where(), st.path())
        if not bad:
            ctx.ok("%s: all states lead where they must" % fn.base)


def judge(fl, st, r, fn, k, op, o, l, ro, rl, A, B, val):
    def bit(a):
        t = r.final(fl, st, a)
        if t is None:
            return None
        return boolean(fl, st, t)
    def boolean(fl, st, t):
        vals = {x: s[0][0] for x, s in st.facts.items() if len(s) == 1 and s[0][0] == s[0][1]}
        p = ("a", 0)
        if p in st.facts or op != "construct":
            v = fl.evalterm(t, vals)
        else:
            v = fl.evalterm(t, vals | {p: 0x1000})
        if v is None:
            s = fl.possible(st, t, fl.w(t))
            v = s[0][0] if len(s) == 1 and s[0][0] == s[0][1] else None
        return None if v is None else v & 1
    own, lock, ptr = bit(A[1]), bit(A[2]), r.final(fl, st, A[0])
    old = ("m0", A[0])
    dels = [e for e in r.events(st) if e[0] == "delete"]
    other = [e for e in r.events(st) if e[0] != "delete"]
    if other:
        return "calls %s" % other[0][0]

    def null(t):
        s = fl.possible(st, t, 64)
        return s == [(0, 0)] or s == ((0, 0),)
    # deletions
    gives = op in ("destroy", "reset", "assign") and o
    if gives:
        if not dels and not null(old):
            return "the object it owns is not deleted"
        if len(dels) > 1:
            return "the object is deleted twice"
        if dels and dels[0][2] != old:
            return "something else than the object it owns is deleted"
        if dels and not re.match(DEL[k], dels[0][1]):
            return "the object is deleted with %s" % dels[0][1]
    elif dels:
        return "deletes although it %s" % ("owns nothing" if not o else "keeps the object")
    if op == "destroy":
        return None
    # state afterwards
    want_p = {"construct": ("a", 0), "default": ("c", 0), "copy": ("m0", B[0]), "assign": ("m0", B[0]), "reset": ("c", 0)}.get(op, old)
    if op == "release":
        want_p = None           # not said
    if want_p is not None and ptr != want_p and not (want_p == ("c", 0) and null(ptr)) and not (null(ptr) and null(want_p)):
        return "points to something else than it should"
    if op == "construct":
        want_o = 1 if not null(("a", 0)) else own if own in (0, 1) else 0    # owning nothing
    elif op == "default":
        want_o = own if own in (0, 1) else 0
    elif op in ("copy", "assign"):
        want_o = int(ro and not rl)
    elif op in ("reset", "release"):
        want_o = 0
    else:
        want_o = o
    if own != want_o:
        return "it %s the owner" % ("is not" if want_o else "remains or becomes")
    want_l = {"lock": 1, "unlock": 0, "construct": 0, "default": 0, "copy": 0}.get(op, l)
    if lock != want_l and not (op in ("reset", "release", "assign") and lock == 0):
        return "it is %slocked" % ("not " if want_l else "")
    if op in ("copy", "assign"):
        if bit(B[1]) != int(ro and rl):
            return "the source %s the owner" % ("remains" if not (ro and rl) else "is no longer")
        if bit(B[2]) != rl:
            return "the source's lock changes"
        if r.final(fl, st, B[0]) != ("m0", B[0]):
            return "the source no longer points to the object"
    if op in ("release", "get", "arrow", "star") and val != old:
        return "another pointer is returned"
    if op in ("owner", "strict"):
        if boolean(fl, st, val) != (o if op == "owner" else l):
            return "the wrong state is returned"
    return None
