"""Matching a label against a mask stays inside both strings, ends, and is equality for masks without asterisks.

All paths through match() are followed with the pointers of each loop as unknowns.  A pointer into the mask may be moved by one
when something was left of the mask (a character that is not zero was there, or the remaining length is not zero), one into the
label when the character there is not zero.  Remaining length and position are related by what the loops add to them.
Every loop moves one of the pointers, a recursive call gets a shorter mask.  Without an asterisk on the path, true is
returned only when both ended together after equal characters, false only when they differ."""
from core import *
from flow import Rule, analyse, C, mentions, width
import lin

FLOORS = {"loops": 2, "reads": 4, "returns": 2}
TECHNIQUE = "inductive relations between the loop variables of match(), with the pointers' validity as typestate"
NOTE = "the byte after the mask is taken to be zero (the callers pass a std::string)"
MASK, LEN, NAME = ("a", 0), ("a", 1), ("a", 2)


class Walk(Rule):
    max_states = 200
    unroll = 0
    affine = 0
    same_base = True

    def __init__(self, prog, ctx, fn, rel=None):
        self.prog, self.ctx, self.fn = prog, ctx, fn
        self.rel = rel                      # header -> [(phi, base phi, factor, entry difference)]
        self.bad = {}
        self.delta = {}                     # header -> [{phi: change}]
        self.entry = {}                     # header -> {phi: set of linear forms}
        self.cls = {}                       # pointer phi -> MASK or NAME
        self.low = {}                       # mask pointer phi -> smallest distance from the start of the mask
        self.returns = 0

    def report(self, st, ins, msg):
        if self.rel is not None:
            self.bad.setdefault(msg, (ins.where(), st.path()))

    # p = (an asterisk was seen, what the variables of a loop were at its start, while in its first round)
    def start(self, fl, st):
        self.fl = fl
        st.p = (False, ())

    def keep(self, fl, t):
        return True

    def which(self, fl, t):
        """(MASK or NAME, atom, distance from it)"""
        x = lin.lf(fl, t)
        for a, c in x[0].items():
            if c == 1 and (a in (MASK, NAME) or a[0] == "i" and a[1] in self.cls) and len(x[0]) == 1:
                return (a if a in (MASK, NAME) else self.cls[a[1]]), a, x[1]
        return None

    def rem(self, fl, st, t):
        """what is left of the mask behind t"""
        d = lin.lf(fl, t)
        for e in (MASK,):
            x = ({k: -v for k, v in d[0].items()}, -d[1])
            for a, c in ((MASK, 1), (LEN, 1)):
                x[0][a] = x[0].get(a, 0) + c
        x = self.basis(st, x)
        return x

    def basis(self, st, x):
        """in terms of the base variables of the loops"""
        out, k = {}, x[1]
        for a, c in x[0].items():
            m = self.subs.get(a)
            if m is None:
                for k1, t in st.p[1]:
                    if ("i", k1) == a:
                        m = lin.lf(self.fl, t)
                        break
            if m is None:
                out[a] = out.get(a, 0) + c
            else:
                for b, d in m[0].items():
                    out[b] = out.get(b, 0) + c * d
                k += c * m[1]
        out = {a: c for a, c in out.items() if c}
        if any(a in self.subs or any(a == ("i", k1) for k1, t in st.p[1]) for a in out):
            return self.basis(st, (out, k))
        return out, k

    def same(self, fl, st, s, t):
        a, b = lin.lf(fl, s), lin.lf(fl, t)
        d = ({x: a[0].get(x, 0) - b[0].get(x, 0) for x in set(a[0]) | set(b[0])}, a[1] - b[1])
        d = self.basis(st, d)
        return not d[0] and d[1] == 0

    def positive(self, fl, st, x):
        """is this linear form known to be more than zero?"""
        if not x[0]:
            return x[1] > 0
        for f, v in st.facts.items():
            if f[0] in ("i", "a", "op", "+", "phi") and v and v[0][0] > 0 and fl.w(f) == 64:
                y = self.basis(st, lin.lf(fl, f))
                if y[0] == x[0] and x[1] - y[1] + v[0][0] > 0:
                    return True
            if f[0] == "icmp":
                pass
        return False

    def zero(self, fl, st, x):
        if not x[0]:
            return x[1] == 0
        for f, v in st.facts.items():
            if v and v[0][0] == v[-1][1] and fl.w(f) == 64 and f[0] in ("i", "a", "op", "+"):
                y = self.basis(st, lin.lf(fl, f))
                if y[0] == x[0] and x[1] - y[1] + (v[0][0] if v[0][0] < 1 << 63 else v[0][0] - (1 << 64)) == 0:
                    return True
        return False

    def byte(self, fl, st, t):
        v = ("byte", t)
        return fl.possible(st, v, 8)

    def nonzero(self, fl, st, t):
        q = self.byte(fl, st, t)
        if q and q[0][0] > 0:
            return True
        return any(o != t and self.equal(fl, st, o, t) and self.byte(fl, st, o)[0][0] > 0 for o in self.bytes(st))

    def bytes(self, st):
        out = set()

        def go(t):
            if isinstance(t, tuple):
                if t and t[0] == "byte":
                    out.add(t[1])
                for s in t:
                    go(s)
        for f in st.facts:
            go(f)
        return out

    def equal(self, fl, st, s, t, want=True):
        """were the characters at s and t found to be equal (or different)?"""
        a, b = ("byte", s), ("byte", t)
        for x, y in ((a, b), (b, a)):
            for w, k in ((8, None), (32, "sext"), (32, "zext")):
                u, v = (x, y) if k is None else ((k, 32, x), (k, 32, y))
                d = fl.decide(st, fl.mk_icmp("eq", u, v, w))
                if d is want:
                    return True
        if not want:
            p, q = fl.possible(st, a, 8), fl.possible(st, b, 8)
            if p and q and not any(l1 <= h2 and l2 <= h1 for l1, h1 in p for l2, h2 in q):
                return True
        return False

    def valid(self, fl, st, t, seen=()):
        w = self.which(fl, t)
        if w is None:
            return None
        if w[2] < 0:
            return None
        for k in range(w[2]):
            u = fl.mk_add(w[1], k)
            if self.nonzero(fl, st, u) or w[0] == MASK and self.positive(fl, st, self.rem(fl, st, u)):
                continue
            return False
        return w[0]

    def load(self, fl, st, ins, a, f):
        if ins.get("t") != "i8":
            return None
        if self.rel is not None:
            self.ctx.count("reads")
            if not self.valid(fl, st, a):
                w = self.which(fl, a)
                self.report(st, ins, "may read outside %s" % ("the mask" if w and w[0] == MASK else "the label" if w else "both strings"))
        t = ("byte", a)
        fl.wd[t] = 8
        return ("val", t)

    def store(self, fl, st, ins, a, v, f):
        if fl.root(a)[0] != "al":
            self.report(st, ins, "writes memory")

    def edge(self, fl, st, src, dst):
        if not st.p[0]:
            for u in self.bytes(st):
                w = self.which(fl, u)
                if w and w[0] == MASK and self.byte(fl, st, u) == ((42, 42),):
                    st.p = (True, ())
        if dst not in fl.headers:
            return
        phis = [i for i in self.fn.blocks[dst] if i.op == "phi"]
        vals = {}
        for i in phis:
            for v, b in i.get("in"):
                if b == src:
                    vals[i.id] = fl.val(st, v)
        for k, v in vals.items():
            if k in self.cls:
                self.full.setdefault(k, []).append(self.nonzero(fl, st, v))
        if (src, dst) in fl.back:
            d = {}
            for k, v in vals.items():
                x = lin.lf(fl, v)
                if x[0] == {("i", k): 1}:
                    d[k] = x[1]
            self.delta.setdefault(dst, []).append(d)
            last = self.fn.blocks[src][-1]
            if not any(k in self.cls and d.get(k, 0) >= 1 for k in vals):
                self.report(st, last, "can go around a loop without moving on in either string")
            for k, v in vals.items():
                if k in self.cls and self.valid(fl, st, v) != self.cls[k]:
                    self.report(st, last, "may leave %s" % ("the mask" if self.cls[k] == MASK else "the label"))
            if not st.p[0] and self.rel is not None:
                ms = [("i", k) for k in vals if self.cls.get(k) == MASK]
                ns = [("i", k) for k in vals if self.cls.get(k) == NAME]
                if not any(self.equal(fl, st, m, n) and self.aligned(fl, st, m, n) for m in ms for n in ns):
                    self.report(st, last, "steps over characters that are not known to be equal")
        else:
            e = self.entry.setdefault(dst, {})
            for k, v in vals.items():
                x = self.basis(st, lin.lf(fl, v))
                e.setdefault(k, set()).add((tuple(sorted(x[0].items(), key=repr)), x[1]))
                w = self.which(fl, v)
                if w is not None:
                    if self.rel is not None and self.valid(fl, st, v) != w[0]:
                        self.report(st, self.fn.blocks[src][-1], "may leave %s" % ("the mask" if w[0] == MASK else "the label"))
                    self.cls[k] = w[0]
                    if w[0] == MASK:
                        lo = w[2] + (0 if w[1] == MASK else self.low.get(w[1][1], 0))
                        self.low[k] = min(lo, self.low.get(k, lo))
        first = tuple(x for x in st.p[1] if x[0] not in vals and not any(mentions(x[1], ("i", k)) for k in vals))
        if not st.p[0] and (src, dst) not in fl.back:
            first += tuple(sorted((k, v) for k, v in vals.items() if not any(mentions(v, ("i", j)) for j in vals)))
        st.p = (st.p[0], first)
        # from here on the phis are unknowns
        self.blur = self.blur | set(vals)

    blur = frozenset()

    def opaque(self, fl, st, k, t):
        fl.wd[t] = width(self.fn.ins[k].get("t"))
        if k in self.nz:
            fl.wd[("byte", t)] = 8
            fl.assume(st, fl.mk_icmp("ne", ("byte", t), C(0), 8), True)

    def aligned(self, fl, st, m, n):
        """as far from the start of the mask as from the start of the label"""
        a, b = lin.lf(fl, m), lin.lf(fl, n)
        d = {x: a[0].get(x, 0) - b[0].get(x, 0) for x in set(a[0]) | set(b[0])}
        d[MASK] = d.get(MASK, 0) - 1
        d[NAME] = d.get(NAME, 0) + 1
        x = self.basis(st, ({k: v for k, v in d.items() if v}, a[1] - b[1]))
        return not x[0] and x[1] == 0

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.startswith("llvm."):
            return ("pure",)
        if c == self.fn.base:
            if self.rel is None:
                return ("pure",)
            self.ctx.count("recursive calls")
            if self.valid(fl, st, args[0]) != MASK or self.valid(fl, st, args[2]) != NAME:
                self.report(st, ins, "recurses with a pointer outside the strings")
            x = self.rem(fl, st, args[0])
            y = self.basis(st, lin.lf(fl, args[1]))
            if x != y:
                self.report(st, ins, "recurses with a length that is not what is left of the mask")
            w = self.which(fl, args[0])
            if w is None or w[2] + (0 if w[1] == MASK else self.low.get(w[1][1], 0)) < 1:
                self.report(st, ins, "recurses without a shorter mask")
            if not st.p[0]:
                self.report(st, ins, "recurses without an asterisk")
            return ("pure",)
        self.report(st, ins, "calls %s" % (c or "something"))
        return ("pure",)

    def ret(self, fl, st, ins, v):
        if self.rel is None:
            return
        star = st.p[0] or any(self.which(fl, u) and self.which(fl, u)[0] == MASK and self.byte(fl, st, u) == ((42, 42),) for u in self.bytes(st))
        self.ctx.count("returns")
        if star:
            return
        q = fl.possible(st, v, 1)
        here = self.bytes(st)
        ends = [u for u in here | {NAME} if (self.which(fl, u) or (0,))[0] == NAME and self.byte(fl, st, u) == ((0, 0),)]
        if any(a <= 1 <= b for a, b in q):
            if not any(self.zero(fl, st, self.left(fl, st, n)) for n in ends):
                self.report(st, ins, "without an asterisk, can say that they match before both ended")
        if any(a == 0 for a, b in q):
            ok = any(self.positive(fl, st, self.left(fl, st, n)) for n in ends)
            ms = [u for u in here if (self.which(fl, u) or (0,))[0] == MASK]
            ns = [u for u in here if (self.which(fl, u) or (0,))[0] == NAME]
            ok = ok or any(self.aligned(fl, st, m, n) and self.equal(fl, st, m, n, False) for m in ms for n in ns)
            ok = ok or any(self.zero(fl, st, self.left(fl, st, n)) and self.nonzero(fl, st, n) for n in ns)
            if not ok:
                self.report(st, ins, "without an asterisk, can say that they do not match although nothing differs")

    def left(self, fl, st, n):
        """what is left of the mask when as much of it was used as of the label"""
        a = lin.lf(fl, n)
        d = {k: -v for k, v in a[0].items()}
        d[NAME] = d.get(NAME, 0) + 1
        d[LEN] = d.get(LEN, 0) + 1
        return self.basis(st, ({k: v for k, v in d.items() if v}, -a[1]))


def relations(w):
    """phi = factor * base + what they differed by at the start, from what one round adds to each"""
    subs = {}
    for h, e in w.entry.items():
        ds = w.delta.get(h, [])
        one = [k for k, s in e.items() if len(s) == 1 and all(k in d for d in ds)]
        if not one or not ds:
            continue
        one.sort(key=lambda k: (w.cls.get(k) != MASK, k))
        base = one[0]
        for k in one[1:]:
            for f in (1, -1):
                if all(d[k] == f * d[base] for d in ds):
                    (x,), (y,) = e[k], e[base]
                    m = dict(x[0])
                    for a, c in y[0]:
                        m[a] = m.get(a, 0) - f * c
                    m[("i", base)] = m.get(("i", base), 0) + f
                    subs[("i", k)] = ({a: c for a, c in m.items() if c}, x[1] - f * y[1])
                    break
    return subs


def run(ctx):
    prog = inl(dump=[r"^libcwd::_private_::match$"])
    fn = prog.one("libcwd::_private_::match")
    ctx.analysed(fn)
    w = None
    subs, cls, low, blur, nz = {}, {}, {}, frozenset(), frozenset()
    for n in range(5):
        v = Walk(prog, ctx, fn, None if n < 4 else {})
        v.subs, v.cls, v.low, v.blur = subs, dict(cls), dict(low), blur
        v.nz, v.full = nz, {}
        analyse(fn, v, 100000)
        nz = frozenset(k for k, l in v.full.items() if all(l))
        if n == 4 and (nz != v.nz or relations(v) != subs or v.cls != cls or v.low != low):
            raise Broken("no inductive invariants for the loops of match()")
        subs, cls, low, blur = relations(v), v.cls, v.low, v.blur
        w = v
    ctx.count("loops", len(w.entry))
    for msg, (where, p) in w.bad.items():
        ctx.violation("match|" + msg, "match() " + msg, where, p)
    if not w.bad:
        ctx.ok("match(): %d loops" % len(w.entry))
