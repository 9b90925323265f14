"""Symbolic summary of a small function: every return with the final memory as terms over the initial
memory ('m0', addr) and the arguments, and the calls made on the way."""
from core import *
from flow import Rule, analyse, C, width, mentions, inter, compl, full, union


class Sym(Rule):
    max_states = 4000
    pure = ()          # regular expressions of callees without effect on memory
    collapse = ("ostate", "sleep")
    stop = ()          # callees that do not return

    def __init__(self, ctx=None):
        self.ctx = ctx
        self.rets = []      # (state, ins, value)
        self.ends = []      # (state, ins): noreturn calls

    def start(self, fl, st):
        st.p = (frozenset(), 0, ())

    def keep(self, fl, t):
        return True

    def keep_mem(self, fl, a, f):
        return True

    def initial(self, fl, st, a, f):
        stores, epoch, ev = st.p
        if epoch > 6:
            return False
        return not any(fl.may_alias(s, fl.fldof.get(s), a, f) for s in stores)

    def load(self, fl, st, ins, a, f):
        if a in st.mem:
            return None
        if fl.root(a)[0] == "al" or not self.initial(fl, st, a, f):
            return None
        t = ("m%d" % st.p[1], a)
        fl.wd[t] = width(ins.get("t"))
        if f:
            fl.fldof[a] = f
        st.mem[a] = t
        return ("val", fl._fit(st, t, width(ins.get("t"))))

    def store(self, fl, st, ins, a, v, f):
        if fl.root(a)[0] != "al":
            s, c, e = st.p
            st.p = (s | {a}, c, e)
        return None

    def event(self, st, *x):
        s, c, e = st.p
        if e[-2:] == (x, x) and x[0] in self.collapse:      # a retry loop
            return
        if len(e) < 160:
            st.p = (s, c, e + (x,))

    def clob(self, fl, st):
        """an unknown call: non-local memory has new, unknown values from here on ('m1', 'm2', ...)"""
        s, c, e = st.p
        st.p = (frozenset(), min(c + 1, 7), e)
        for a in [a for a in st.mem if fl.root(a)[0] != "al" or fl.root(a)[1] in fl.escaped]:
            del st.mem[a]

    def events(self, st):
        return st.p[2]

    def call(self, fl, st, ins, args):
        c = ins.callee or "indirect"
        r = self.known(fl, st, ins, args, c)
        if r is not None:
            return r
        self.event(st, c, tuple(args))
        if any(re.search(x, c) for x in self.pure):
            return ("pure",)
        self.clob(fl, st)
        return None

    def known(self, fl, st, ins, args, c):
        return None

    def modifies(self, fl, st, ins, args):
        return "*"

    def ret(self, fl, st, ins, val):
        self.rets.append((st.copy(), ins, val))

    def unreachable(self, fl, st, ins):
        self.ends.append((st.copy(), ins))

    # -- reading results
    def final(self, fl, st, a):
        v = st.mem.get(a)
        if v is not None:
            return v
        if self.initial(fl, st, a, fl.fldof.get(a)):
            return ("m%d" % st.p[1], a)
        return None

    def changed(self, fl, st):
        """addresses of non-local memory stored since the last unknown call whose value differs from before"""
        out = {}
        for a in st.p[0]:
            v = st.mem.get(a)
            if v != ("m%d" % st.p[1], a):
                out[a] = v
        return out

    def end(self, fl, st, ins):
        """the call ins does not return"""
        self.ends.append((st.copy(), ins))
        st.dead = True


def bitwise(fl, t, leaves, fn, w=32):
    """is t, bit by bit, the function fn of the leaves?"""
    def ok(x):
        if x in leaves:
            return True
        k = x[0]
        if k == "c":
            return x[1] in (0, (1 << w) - 1, -1)
        if k in ("band", "bor"):
            return ok(x[1]) and ok(x[2])
        if k == "op" and x[1] in ("and", "or", "xor"):
            return ok(x[2]) and ok(x[3])
        return False
    if not ok(t):
        return False
    import itertools
    m = (1 << w) - 1
    for bits in itertools.product((0, m), repeat=len(leaves)):
        v = fl.evalterm(t, dict(zip(leaves, bits)))
        if v is None or (v & m) != (fn(*bits) & m):
            return False
    return True
