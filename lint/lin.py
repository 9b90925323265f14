"""Linear relations between the values of a path: which inequalities follow from the branches taken.

Terms of flow.py are read as linear forms over atoms; branch facts, intervals and relations known to the rule become
inequalities; a goal is decided by eliminating the atoms one after another (Fourier-Motzkin)."""
from fractions import Fraction
from math import gcd

MAXC = 400


def norm_lin(d):
    return {k: v for k, v in d.items() if v}


def lf(fl, t):
    """linear form of a term: ({atom: coefficient}, constant)"""
    k = t[0]
    if k == "c":
        return {}, t[1]
    if k == "+":
        d, c = lf(fl, t[1])
        return d, c + t[2]
    if k == "idx":
        d, c = lf(fl, t[1])
        d = dict(d)
        c += t[2]
        for x, s in t[3]:
            dx, cx = lf(fl, x)
            for a, v in dx.items():
                d[a] = d.get(a, 0) + v * s
            c += cx * s
        return norm_lin(d), c
    if k == "op" and t[1] in ("add", "sub"):
        d, c = lf(fl, t[2])
        e, f = lf(fl, t[3])
        s = 1 if t[1] == "add" else -1
        d = dict(d)
        for a, v in e.items():
            d[a] = d.get(a, 0) + s * v
        return norm_lin(d), c + s * f
    if k == "op" and t[1] in ("mul", "shl") and t[3][0] == "c" and 0 <= t[3][1] < 1 << 40:
        m = t[3][1] if t[1] == "mul" else 1 << t[3][1]
        d, c = lf(fl, t[2])
        return {a: v * m for a, v in d.items()}, c * m
    if k in ("zext", "sext") and t[2][0] in ("+", "op", "zext", "sext") and not (k == "zext" and t[2][0] == "sext"):
        return lf(fl, t[2])
    return {t: 1}, 0


def sub(x, y):
    d = dict(x[0])
    for a, v in y[0].items():
        d[a] = d.get(a, 0) - v
    return norm_lin(d), x[1] - y[1]


def has_neg(x):
    return x[1] < 0 or any(v < 0 for v in x[0].values())


class Rel:
    """the relations known in a state; nonneg(atom) says which atoms are never negative (lengths, sizes)"""

    def __init__(self, fl, st, nonneg=lambda t: False, extra=()):
        self.fl, self.st = fl, st
        self.nonneg = nonneg
        self.cs = []
        self.ne = []
        late = []
        for f, s in st.facts.items():
            if f[0] == "icmp" and s in (((0, 0),), ((1, 1),)):
                self._icmp(f[1], f[2], f[3], s == ((1, 1),), late)
        for e in extra:
            self.cs.append(e)
        self.late = late
        for _ in range(2):
            rest = []
            for a, b, c in self.late:      # unsigned comparisons of differences: only if these cannot wrap
                if all(not has_neg(x) or self.holds(x) for x in (a, b)):
                    self.cs.append(c)
                else:
                    rest.append((a, b, c))
            self.late = rest
        for d in self.ne:                      # a != b sharpens a <= b by the step they are multiples of
            g = abs(d[1])
            for v in d[0].values():
                g = gcd(g, abs(v))
            if g:
                m = ({a: -v for a, v in d[0].items()}, -d[1])
                if self.holds(d):
                    self.cs.append(plus(d, -g))
                elif self.holds(m):
                    self.cs.append(plus(m, -g))

    NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule",
           "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}

    def _icmp(self, pred, a, b, truth, late):
        if not truth:
            pred = self.NEG[pred]
        if a[0] in ("c",) and b[0] in ("c",):
            return
        x, y = lf(self.fl, a), lf(self.fl, b)
        if pred == "ne":
            self.ne.append(sub(x, y))
            return
        if pred == "eq":
            self.cs.append(sub(x, y))
            self.cs.append(sub(y, x))
            return
        d = sub(y, x) if pred[1] == "l" else sub(x, y)
        if pred.endswith("t"):
            d = (d[0], d[1] - 1)
        if pred[0] == "u" and (has_neg(x) or has_neg(y)):
            late.append((x, y, d))
        else:
            self.cs.append(d)

    def bounds(self, a):
        out = []
        w = self.fl.w(a)
        try:
            s = self.fl.possible(self.st, a, w)
        except Exception:
            s = ()
        h = 1 << (w - 1)
        if s and all(hi < h for lo, hi in s):
            out.append(({a: 1}, -s[0][0]))
            if s[-1][1] < (1 << 62):
                out.append(({a: -1}, s[-1][1]))
        elif s and all(lo >= h for lo, hi in s):
            out.append(({a: -1}, s[-1][1] - 2 * h))
        elif a[0] == "zext":
            out.append(({a: 1}, 0))
        if self.nonneg(a):
            out.append(({a: 1}, 0))
        return out

    def holds(self, goal):
        """does goal >= 0 follow?"""
        d, c = goal
        if not d:
            return c >= 0
        cs = list(self.cs)
        # relevant part
        atoms, use, pend = set(d), [], cs
        change = True
        while change:
            change = False
            rest = []
            for e in pend:
                if any(a in atoms for a in e[0]):
                    use.append(e)
                    atoms.update(e[0])
                    change = True
                else:
                    rest.append(e)
            pend = rest
        for a in atoms:
            use += self.bounds(a)
        neg = ({a: -v for a, v in d.items()}, -c - 1)
        return self._unsat(use + [neg], atoms)

    def ge(self, a, b):
        """a >= b for terms or linear forms"""
        x = a if isinstance(a[0], dict) else lf(self.fl, a)
        y = b if isinstance(b[0], dict) else lf(self.fl, b)
        return self.holds(sub(x, y))

    @staticmethod
    def _unsat(cs, atoms):
        cs = [({a: Fraction(v) for a, v in d.items() if v}, Fraction(c)) for d, c in cs]
        atoms = set(atoms)
        while True:
            seen, nc = set(), []
            for d, c in cs:
                if not d:
                    if c < 0:
                        return True
                    continue
                k = max(abs(v) for v in d.values())
                d = {a: v / k for a, v in d.items()}
                c = c / k
                key = (frozenset(d.items()), c)
                if key not in seen:
                    seen.add(key)
                    nc.append((d, c))
            cs = nc
            if not cs or len(cs) > MAXC:
                return False
            best = None
            for a in atoms:
                p = sum(1 for d, c in cs if d.get(a, 0) > 0)
                n = sum(1 for d, c in cs if d.get(a, 0) < 0)
                if p + n and (best is None or p * n - p - n < best[0]):
                    best = (p * n - p - n, a)
            if best is None:
                return False
            a = best[1]
            pos = [(d, c) for d, c in cs if d.get(a, 0) > 0]
            neg = [(d, c) for d, c in cs if d.get(a, 0) < 0]
            cs = [(d, c) for d, c in cs if not d.get(a, 0)]
            for d, c in pos:
                for e, f in neg:
                    kp, kn = d[a], -e[a]
                    g = {}
                    for x, v in d.items():
                        g[x] = g.get(x, 0) + v * kn
                    for x, v in e.items():
                        g[x] = g.get(x, 0) + v * kp
                    cs.append(({x: v for x, v in g.items() if v}, c * kn + f * kp))
            atoms.discard(a)


def plus(x, k):
    return (x[0], x[1] + k)


def add(x, y):
    d = dict(x[0])
    for a, v in y[0].items():
        d[a] = d.get(a, 0) + v
    return norm_lin(d), x[1] + y[1]
