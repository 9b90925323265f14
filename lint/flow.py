"""Path-sensitive abstract interpretation of one (inlined) function.

Values are hash-consed terms (tuples); facts map terms to sets of integers (unions of intervals modulo
2^width); memory maps symbolic addresses to terms.  A rule adds its own property state `p' (any hashable
value, terms inside it are kept up to date) and is called back on calls, loads, stores and exits.
States that agree are merged, unrelated facts are pruned, so the exploration reaches a fixpoint over all
paths (loops included); no path is sampled and no solver is asked.
"""
import heapq
import re
from collections import deque
from core import Broken

FULL64 = 64


# --------------------------------------------------------------------------- interval unions

def iu(*ivs):
    return tuple(sorted(ivs))


def full(w):
    return ((0, (1 << w) - 1),)


def norm(ivs):
    out = []
    for lo, hi in sorted(ivs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo, hi = max(a[i][0], b[j][0]), min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def union(a, b):
    return norm(list(a) + list(b))


def compl(a, w):
    out = []
    cur = 0
    for lo, hi in a:
        if cur < lo:
            out.append((cur, lo - 1))
        cur = hi + 1
    if cur <= (1 << w) - 1:
        out.append((cur, (1 << w) - 1))
    return tuple(out)


def shift(a, k, w):
    """{x + k mod 2^w}"""
    m = 1 << w
    k %= m
    out = []
    for lo, hi in a:
        lo2, hi2 = lo + k, hi + k
        if lo2 >= m:
            out.append((lo2 - m, hi2 - m))
        elif hi2 >= m:
            out.append((lo2, m - 1))
            out.append((0, hi2 - m))
        else:
            out.append((lo2, hi2))
    return norm(out)


def pred_set(pred, c, w):
    """{x : x pred c} as unsigned w-bit values"""
    m = 1 << w
    c %= m
    h = 1 << (w - 1)
    if pred == "eq":
        return ((c, c),)
    if pred == "ne":
        return compl(((c, c),), w)
    if pred == "ult":
        return ((0, c - 1),) if c else ()
    if pred == "ule":
        return ((0, c),)
    if pred == "ugt":
        return ((c + 1, m - 1),) if c + 1 < m else ()
    if pred == "uge":
        return ((c, m - 1),)
    s = (c + h) % m  # biased
    if pred == "slt":
        b = ((0, s - 1),) if s else ()
    elif pred == "sle":
        b = ((0, s),)
    elif pred == "sgt":
        b = ((s + 1, m - 1),) if s + 1 < m else ()
    elif pred == "sge":
        b = ((s, m - 1),)
    else:
        return full(w)
    return shift(b, -h, w)


SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
        "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule",
       "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}


def width(ty):
    if ty is None:
        return 64
    if ty == "ptr":
        return 64
    m = re.match(r"i(\d+)$", ty)
    return int(m.group(1)) if m else 64


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        for s in t:
            if isinstance(s, tuple) and mentions(s, x):
                return True
    return False


def subst(t, m):
    """Replace whole sub-terms of t according to dict m."""
    if not isinstance(t, tuple):
        return t
    r = m.get(t)
    if r is not None:
        return r
    out = None
    for k, s in enumerate(t):
        if isinstance(s, tuple):
            n = subst(s, m)
            if n is not s:
                if out is None:
                    out = list(t)
                out[k] = n
    return tuple(out) if out is not None else t


def C(n):
    return ("c", n)


class State:
    __slots__ = ("env", "facts", "kb", "mem", "p", "trail", "dead")

    def __init__(self):
        self.env, self.facts, self.kb, self.mem = {}, {}, {}, {}
        self.p = None
        self.trail = None
        self.dead = False

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.kb = dict(self.kb)
        s.mem = dict(self.mem)
        s.p = self.p
        s.trail = self.trail
        return s

    def note(self, what):
        self.trail = (self.trail, what)

    def path(self, n=40):
        out = []
        t = self.trail
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        return out[::-1]


class Rule:
    """Base class of the rules.  Handlers may modify the state or return a list of states."""
    merge = False          # merge all states with equal p at block entry
    max_states = 60        # states with equal p per block before they are merged
    follow_unwind = False
    unroll = 3             # computed constants carried around a loop before they become opaque
    affine = 0             # largest offset kept symbolic around a loop
    exact = ()             # bases whose offsets are kept around loops
    blur = ()              # phis whose values are never kept

    def fold(self, fl, st, b):
        """drop what does not matter at the start of block b"""
        pass

    def opaque(self, fl, st, k, t):
        """phi k has an unknown value from here on: t"""
        pass

    def start(self, fl, st):
        pass

    def call(self, fl, st, ins, args):
        """None: default treatment; ('val', term): result; list of (state, term)."""
        return None

    def load(self, fl, st, ins, addr, fld):
        return None

    def store(self, fl, st, ins, addr, val, fld):
        return None

    def ret(self, fl, st, ins, val):
        pass

    def unreachable(self, fl, st, ins):
        pass

    def edge(self, fl, st, src, dst):
        pass

    def branch(self, fl, st, ins, taken):
        pass

    def unwind(self, fl, st, ins):
        pass

    def keep(self, fl, term):
        """keep facts about this term although no live value refers to it?"""
        return False

    def keep_mem(self, fl, addr, fld):
        return False

    def modifies(self, fl, st, ins, args):
        """None: nothing but pointer arguments; set of field names / global names; '*' = all non-local memory"""
        return None


class Flow:
    def __init__(self, fn, rule, cap=40000):
        self.fn, self.rule, self.prog = fn, rule, fn.prog
        self.cap = cap
        self.wd = {}
        self.fldof = {}
        self.violations = []
        self._vset = set()
        self.visited_blocks = set()
        self.steps = 0
        self.consts = {}
        self._prep()

    # ------------------------------------------------------------------ preparation
    def _prep(self):
        fn = self.fn
        # liveness of SSA values at block entry
        use, defs, phi_in = {}, {}, {}
        for b in fn.order:
            u, d = set(), set()
            for i in fn.blocks[b]:
                if i.op == "phi":
                    for v, pb in i.get("in"):
                        if isinstance(v, int):
                            phi_in.setdefault(pb, {}).setdefault(b, set()).add(v)
                    d.add(i.id)
                    continue
                for v in self._uses(i):
                    if v not in d:
                        u.add(v)
                d.add(i.id)
            use[b], defs[b] = u, d
        live = {b: set(use[b]) for b in fn.order}
        out = {b: set() for b in fn.order}
        work = deque(reversed(fn.order))
        inq = set(work)
        while work:
            b = work.popleft()
            inq.discard(b)
            o = set()
            for s in fn.succs(b):
                o |= live[s]
                o |= phi_in.get(b, {}).get(s, set())
            out[b] = o
            n = use[b] | (o - defs[b])
            if n != live[b]:
                live[b] = n
                for p in fn.preds[b]:
                    if p not in inq:
                        inq.add(p)
                        work.append(p)
        for b in fn.order:
            for i in fn.blocks[b]:
                if i.op != "phi":
                    break
                live[b].add(i.id)
        self.live_in = live
        self.live_out = out
        # reachable fields/globals/allocas loaded from each block on
        acc = {b: set() for b in fn.order}
        for b in fn.order:
            for i in fn.blocks[b]:
                if i.op in ("load", "atomicrmw", "cmpxchg"):
                    p = i.ops[0]
                    acc[b].add(self.memkey_static(i, p))
                elif i.is_call():
                    acc[b].add("call")
        changed = True
        while changed:
            changed = False
            for b in reversed(fn.rpo()):
                n = set(acc[b])
                for s in fn.succs(b):
                    n |= acc[s]
                if n != acc[b]:
                    acc[b] = n
                    changed = True
        self.acc = acc
        # back edges (targets dominating source) and general retreating edges
        order = {b: k for k, b in enumerate(fn.rpo())}
        self.back = set()
        for b in fn.rpo():
            for s in fn.succs(b):
                if order[s] <= order[b]:
                    self.back.add((b, s))
        self.headers = {s for _, s in self.back}
        # escaping allocas: address stored somewhere or converted
        self.escaped = set()
        for i in fn.instrs():
            if i.op == "store" and isinstance(i.ops[0], int):
                r = self._root_alloca(i.ops[0])
                if r is not None:
                    self.escaped.add(r)
            elif i.op in ("ptrtoint",) and isinstance(i.ops[0], int):
                r = self._root_alloca(i.ops[0])
                if r is not None:
                    self.escaped.add(r)

    def _root_alloca(self, v, depth=0):
        while depth < 30:
            i = self.fn.ins.get(v) if isinstance(v, int) else None
            if i is None:
                return None
            if i.op == "alloca":
                return i.id
            if i.op in ("getelementptr", "bitcast"):
                v = i.ops[0]
                depth += 1
                continue
            return None
        return None

    def _uses(self, i):
        out = [o for o in i.ops if isinstance(o, int)]
        c = i.get("cond")
        if isinstance(c, int):
            out.append(c)
        f = i.get("fp")
        if isinstance(f, int):
            out.append(f)
        return out

    def memkey_static(self, i, p):
        """A key describing which memory a load touches: field name, global, alloca, or '?'."""
        f = self.fn.fld(i)
        if f:
            return f
        d = p
        for _ in range(20):
            if isinstance(d, dict):
                if "g" in d:
                    return "g:" + d["g"]
                if d.get("ce") == "gep":
                    d = d["b"]
                    continue
                return "?"
            x = self.fn.ins.get(d)
            if x is None:
                return "?"
            if x.op == "alloca":
                return "al:%d" % x.id
            if x.op in ("getelementptr", "bitcast"):
                d = x.ops[0]
                continue
            if x.is_call() and x.get("callee", "").startswith("llvm.threadlocal"):
                d = x.ops[0]
                continue
            return "?"
        return "?"

    def addrkey(self, addr, fld):
        if fld:
            return fld
        r = self.root(addr)
        if r[0] == "g":
            return "g:" + r[1]
        if r[0] == "al":
            return "al:%d" % r[1]
        return "?"

    @staticmethod
    def root(t):
        while t[0] in ("+", "idx"):
            t = t[1]
        return t

    # ------------------------------------------------------------------ terms
    def w(self, t):
        k = t[0]
        if k == "zext" or k == "sext" or k == "trunc":
            return t[1]
        if k in ("icmp", "not", "band", "bor"):
            return 1
        if k in ("+", "and", "or", "shl", "lshr", "mul"):
            return self.w(t[1])
        return self.wd.get(t, 64)

    def mk_add(self, x, k):
        if x[0] == "c":
            return C(x[1] + k)
        if x[0] == "+":
            return self.mk_add(x[1], x[2] + k)
        if x[0] == "idx":
            return ("idx", x[1], x[2] + k, x[3])
        if k == 0:
            return x
        return ("+", x, k)

    def mk_idx(self, base, k, vars):
        """base + k + sum(term*scale)"""
        acc = {}
        if base[0] == "idx":
            for t, s in base[3]:
                acc[t] = acc.get(t, 0) + s
            k += base[2]
            base = base[1]
        while base[0] == "+":
            k += base[2]
            base = base[1]
        for t, s in vars:
            while t[0] in ("zext", "sext"):
                t = t[2]
            if t[0] == "+" :
                kk = t[2]
                k += kk * s
                t = t[1]
                while t[0] in ("zext", "sext"):
                    t = t[2]
            if t[0] == "c":
                k += t[1] * s
            else:
                acc[t] = acc.get(t, 0) + s
        acc = {t: s for t, s in acc.items() if s}
        if not acc:
            return self.mk_add(base, k)
        return ("idx", base, k, tuple(sorted(acc.items(), key=repr)))

    def mk_not(self, x):
        if x[0] == "not":
            return x[1]
        if x[0] == "c":
            return C(0 if x[1] & 1 else 1)
        if x[0] == "icmp":
            return ("icmp", NEG[x[1]], x[2], x[3])
        return ("not", x)

    def mk_and(self, x, c, w):
        c &= (1 << w) - 1
        if c == 0:
            return C(0)
        if x[0] == "c":
            return C(x[1] & c)
        if c == (1 << w) - 1:
            return x
        if x[0] == "and":
            return self.mk_and(x[1], x[2] & c, w)
        if x[0] == "or":
            if x[2] & c == 0:
                return self.mk_and(x[1], c, w)
            if x[2] & c == c:
                return C(c)
        if x[0] == "zext":
            return ("zext", w, self.mk_and(x[2], c, self.w(x[2])))
        return ("and", x, c)

    def mk_or(self, x, c, w):
        c &= (1 << w) - 1
        if c == 0:
            return x
        if x[0] == "c":
            return C(x[1] | c)
        if x[0] == "or":
            return ("or", x[1], x[2] | c)
        return ("or", x, c)

    def mk_icmp(self, pred, a, b, w):
        if a[0] == "c" and b[0] != "c":
            a, b, pred = b, a, SWAP[pred]
        if b[0] == "c":
            if a[0] == "c":
                s = pred_set(pred, b[1], w)
                v = a[1] % (1 << w)
                return C(1 if any(lo <= v <= hi for lo, hi in s) else 0)
            if w == 1:
                v = b[1] & 1
                if pred in ("eq", "ne"):
                    return a if (pred == "eq") == bool(v) else self.mk_not(a)
            # (x & C) == C  with a single bit is the same as (x & C) != 0
            if a[0] == "and" and pred in ("eq", "ne") and b[1] == a[2] and (b[1] & (b[1] - 1)) == 0:
                return ("icmp", NEG[pred], a, C(0))
            self.wd[a] = w if a not in self.wd else self.wd[a]
            return ("icmp", pred, a, b)
        # strip common offsets for equality
        if pred in ("eq", "ne"):
            ka = kb = 0
            if a[0] == "+":
                ka, a = a[2], a[1]
            if b[0] == "+":
                kb, b = b[2], b[1]
            if a[0] == "idx" and b[0] == "idx" and a[1] == b[1] and a[3] == b[3]:
                ka, kb = ka + a[2], kb + b[2]
                a = b = a[1]
            if a == b:
                return C(int((ka == kb) == (pred == "eq")))
            # keep offset on one side
            if ka and kb:
                ka -= kb
                kb = 0
            a, b = self.mk_add(a, ka), self.mk_add(b, kb)
            ra, rb = self.root(a), self.root(b)
            if {ra[0], rb[0]} <= {"g", "al"} and ra != rb:
                return C(int(pred == "ne"))
            if repr(b) < repr(a):
                a, b = b, a
            return ("icmp", pred, a, b)
        if a == b:
            return C(int(pred in ("ule", "uge", "sle", "sge")))
        if pred[0] == "s" and getattr(self.rule, "same_base", False):      # positions: no overflow
            ka, ra = (a[2], a[1]) if a[0] == "+" else (0, a)
            kb, rb = (b[2], b[1]) if b[0] == "+" else (0, b)
            if ra == rb:
                return C(int({"slt": ka < kb, "sle": ka <= kb, "sgt": ka > kb, "sge": ka >= kb}[pred]))
        if repr(b) < repr(a):
            a, b, pred = b, a, SWAP[pred]
        return ("icmp", pred, a, b)

    # ------------------------------------------------------------------ facts
    def reduce(self, t, s, w):
        """t in s (w bits)  <=>  t' in s'"""
        for _ in range(12):
            if t[0] == "+":
                s = shift(s, -t[2], w)
                t = t[1]
            elif t[0] == "zext":
                w = self.w(t[2])
                s = inter(s, full(w))
                t = t[2]
            elif t[0] == "sext":
                w2 = self.w(t[2])
                h = 1 << (w2 - 1)
                lo = inter(s, ((0, h - 1),))
                top = (1 << w) - h
                hi = inter(s, ((top, (1 << w) - 1),))
                hi = tuple((a - top + h, b - top + h) for a, b in hi)
                s = norm(list(lo) + list(hi))
                t, w = t[2], w2
            elif t[0] == "trunc" and t[1] == 1:
                w2 = self.w(t[2])
                t = t[2]
                s2 = []
                for v in (0, 1):
                    if any(a <= v <= b for a, b in s):
                        s2.append((v, v))
                if s2 and s2[-1][1] == 1:      # booleans are stored as 0 or 1
                    s2.append((2, (1 << w2) - 1)) if w2 > 1 else None
                s = norm(s2)
                w = w2
            else:
                break
        return t, s, w

    def possible(self, st, t, w):
        """set of values term t may have"""
        if t[0] == "c":
            v = t[1] % (1 << w)
            return ((v, v),)
        f = st.facts.get(t)
        base = f if f is not None else full(w)
        if t[0] == "and":
            base = inter(base, ((0, t[2]),))
            z, o = st.kb.get(t[1], (0, 0))
            if (z | o) & t[2] == t[2]:
                v = o & t[2]
                base = inter(base, ((v, v),))
            elif o & t[2]:
                base = inter(base, ((o & t[2], t[2]),))
            elif z & t[2]:
                base = inter(base, ((0, t[2] & ~z),))
        elif t[0] == "trunc" and t[1] == 1:      # booleans are stored as 0 or 1
            q = self.possible(st, t[2], self.w(t[2]))
            if q == ((0, 0),):
                base = inter(base, ((0, 0),))
            elif q and q[0][0] > 0:
                base = inter(base, ((1, 1),))
        elif t[0] == "or":
            base = inter(base, ((t[2], (1 << w) - 1),))
        elif t[0] in ("zext", "sext", "+", "trunc"):
            if t[0] == "zext":
                sub = self.possible(st, t[2], self.w(t[2]))
                base = inter(base, sub)
            elif t[0] == "+":
                base = inter(base, shift(self.possible(st, t[1], w), t[2], w))
            elif t[0] == "sext":
                w2 = self.w(t[2])
                h = 1 << (w2 - 1)
                sub = self.possible(st, t[2], w2)
                out = list(inter(sub, ((0, h - 1),)))
                for a, b in inter(sub, ((h, (1 << w2) - 1),)):
                    out.append((a - (1 << w2) + (1 << w), b - (1 << w2) + (1 << w)))
                base = inter(base, norm(out))
            elif t[0] == "trunc" and t[1] > 1:
                sub = self.possible(st, t[2], self.w(t[2]))
                if sub and sub[-1][1] < (1 << t[1]):
                    base = inter(base, sub)
        elif t[0] in ("icmp", "not", "band", "bor"):
            d = self.decide(st, t)
            if d is not None:
                base = ((int(d), int(d)),)
            else:
                base = inter(base, ((0, 1),))
        elif t[0] in ("g", "al", "f"):
            base = inter(base, ((1, (1 << w) - 1),))
        return base

    def decide(self, st, t):
        """truth of boolean term: True / False / None"""
        if t[0] == "c":
            return bool(t[1] & 1)
        if t[0] == "not":
            d = self.decide(st, t[1])
            return None if d is None else not d
        if t[0] == "band":
            a, b = self.decide(st, t[1]), self.decide(st, t[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if t[0] == "bor":
            a, b = self.decide(st, t[1]), self.decide(st, t[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if t[0] == "icmp":
            pred, a, b = t[1], t[2], t[3]
            if b[0] == "c":
                w = self.w(a)
                f = self.possible(st, a, w)
                s = pred_set(pred, b[1], w)
                i = inter(f, s)
                if not i:
                    return False
                if i == f:
                    return True
                r, s2, w2 = self.reduce(a, s, w)
                if r != a:
                    f = self.possible(st, r, w2)
                    i = inter(f, s2)
                    if not i:
                        return False
                    if i == f:
                        return True
                return None
            w = max(self.w(a), self.w(b))
            fb = self.possible(st, b, w)
            if len(fb) == 1 and fb[0][0] == fb[0][1]:
                v = fb[0][0]
                return self.decide(st, ("icmp", pred, a, C(v)))
            fa = self.possible(st, a, w)
            if len(fa) == 1 and fa[0][0] == fa[0][1]:
                return self.decide(st, ("icmp", SWAP[pred], b, C(fa[0][0])))
            if pred in ("eq", "ne") and not inter(fa, fb):
                return pred == "ne"
            if pred[0] == "u" and fa and fb:
                la, ha, lb, hb = fa[0][0], fa[-1][1], fb[0][0], fb[-1][1]
                if pred == "ult":
                    if ha < lb:
                        return True
                    if la >= hb:
                        return False
                if pred == "ule":
                    if ha <= lb:
                        return True
                    if la > hb:
                        return False
                if pred == "ugt":
                    if la > hb:
                        return True
                    if ha <= lb:
                        return False
                if pred == "uge":
                    if la >= hb:
                        return True
                    if ha < lb:
                        return False
            return self._decide_rel(st, pred, a, b)
        if t[0] == "trunc" and t[1] == 1:
            r, s, w = self.reduce(t, ((1, 1),), 1)
            f = self.possible(st, r, w)
            i = inter(f, s)
            if not i:
                return False
            return True if i == f else None
        f = st.facts.get(t)
        if f is not None:
            if f == ((0, 0),):
                return False
            if f and f[0][0] > 0:
                return True
        return None

    def _decide_rel(self, st, pred, a, b):
        """facts about the same pair under another predicate"""
        f = st.facts.get(("icmp", pred, a, b))
        if f is not None:
            return f != ((0, 0),)
        f = st.facts.get(("icmp", NEG[pred], a, b))
        if f is not None:
            return f == ((0, 0),)

        def known(p):
            f = st.facts.get(("icmp", p, a, b))
            if f is not None:
                return f != ((0, 0),)
            f = st.facts.get(("icmp", NEG[p], a, b))
            if f is not None:
                return f == ((0, 0),)
            return None
        for sg in ("u", "s"):
            lt, gt, eq = known(sg + "lt"), known(sg + "gt"), known("eq")
            if pred == "eq":
                if lt or gt:
                    return False
                if lt is False and gt is False:
                    return True
            if pred == "ne":
                if lt or gt:
                    return True
                if lt is False and gt is False:
                    return False
            if pred[0] != sg:
                continue
            if pred == sg + "lt":
                if gt or eq:
                    return False
                if gt is False and eq is False:
                    return True
            if pred == sg + "gt":
                if lt or eq:
                    return False
                if lt is False and eq is False:
                    return True
            if pred == sg + "le":
                if lt or eq:
                    return True
                if lt is False and eq is False:
                    return False
            if pred == sg + "ge":
                if gt or eq:
                    return True
                if gt is False and eq is False:
                    return False
        return None

    def assume(self, st, t, truth):
        """refine st with boolean term == truth; False if infeasible"""
        if t[0] == "c":
            return bool(t[1] & 1) == truth
        if t[0] == "not":
            return self.assume(st, t[1], not truth)
        if t[0] == "band" and truth:
            return self.assume(st, t[1], True) and self.assume(st, t[2], True)
        if t[0] == "bor" and not truth:
            return self.assume(st, t[1], False) and self.assume(st, t[2], False)
        d = self.decide(st, t)
        if d is not None and d != truth:
            return False
        if t[0] in ("band", "bor"):
            a, b = self.decide(st, t[1]), self.decide(st, t[2])
            if t[0] == "band":      # false
                if a:
                    return self.assume(st, t[2], False)
                if b:
                    return self.assume(st, t[1], False)
            else:
                if a is False:
                    return self.assume(st, t[2], True)
                if b is False:
                    return self.assume(st, t[1], True)
            return True
        if t[0] == "icmp" and t[3][0] == "c":
            pred, a, c = t[1], t[2], t[3][1]
            w = self.w(a)
            s = pred_set(pred if truth else NEG[pred], c, w)
            return self.restrict(st, a, s, w)
        if t[0] == "icmp":
            a, b = t[2], t[3]
            pred = t[1] if truth else NEG[t[1]]
            w = max(self.w(a), self.w(b))
            for x, y, p in ((a, b, pred), (b, a, SWAP[pred])):
                fy = self.possible(st, y, w)
                if not fy:
                    return False
                if p == "eq":
                    if not self.restrict(st, x, fy, w):
                        return False
                elif p in ("ult", "ule"):
                    hi = fy[-1][1] - (1 if p == "ult" else 0)
                    if hi < (1 << w) - 1:
                        if hi < 0 or not self.restrict(st, x, ((0, hi),), w):
                            return False
                elif p in ("ugt", "uge"):
                    lo = fy[0][0] + (1 if p == "ugt" else 0)
                    if lo > 0:
                        if lo >= (1 << w) or not self.restrict(st, x, ((lo, (1 << w) - 1),), w):
                            return False
            st.facts[("icmp", pred, a, b)] = ((1, 1),)
            return True
        if t[0] == "trunc" and t[1] == 1:
            r, s, w = self.reduce(t, ((1, 1),) if truth else ((0, 0),), 1)
            return self.restrict(st, r, s, w)
        st.facts[t] = ((1, 1),) if truth else ((0, 0),)
        return True

    def split(self, st, t, truth):
        """the states (at least copies of st) in which t has this truth value; disjunctions fork"""
        while t[0] == "not":
            t, truth = t[1], not truth
        d = self.decide(st, t)
        if d is not None:
            if d != truth:
                return []
            return [st] if self.assume(st, t, truth) else []
        if t[0] == ("band" if truth else "bor"):
            out = []
            for s in self.split(st, t[1], truth):
                out += self.split(s, t[2], truth)
            return out
        if t[0] == ("bor" if truth else "band"):
            s2 = st.copy()
            out = self.split(st, t[1], truth)
            for s in self.split(s2, t[1], not truth):
                out += self.split(s, t[2], truth)
            return out
        return [st] if self.assume(st, t, truth) else []

    def restrict(self, st, t, s, w):
        if t[0] == "c":
            v = t[1] % (1 << w)
            return any(lo <= v <= hi for lo, hi in s)
        r, s2, w2 = self.reduce(t, s, w)
        if r[0] in ("icmp", "not", "band", "bor"):
            can0 = any(lo <= 0 <= hi for lo, hi in s2)
            can1 = any(lo <= 1 <= hi for lo, hi in s2)
            if can0 and can1:
                return True
            if not can0 and not can1:
                return False
            return self.assume(st, r, can1)
        f = inter(self.possible(st, r, w2), s2)
        if not f:
            return False
        if r[0] == "c":
            return True
        st.facts[r] = f
        if r[0] == "and":
            c = r[2]
            v = None
            if len(f) == 1 and f[0][0] == f[0][1]:
                v = f[0][0]
            elif c & (c - 1) == 0 and f[0][0] > 0:
                v = c
            if v is not None:
                z, o = st.kb.get(r[1], (0, 0))
                z |= c & ~v
                o |= v
                st.kb[r[1]] = (z, o)
                # the value itself may be constrained
                fx = st.facts.get(r[1])
                if fx is not None and len(fx) == 1 and fx[0][0] == fx[0][1]:
                    if (fx[0][0] & c) != v:
                        return False
        elif len(f) == 1 and f[0][0] == f[0][1] and r in st.kb:
            z, o = st.kb[r]
            if f[0][0] & z or (f[0][0] & o) != o:
                return False
        return True

    # ------------------------------------------------------------------ state access helpers for rules
    def val(self, st, v):
        if isinstance(v, int):
            t = st.env.get(v)
            if t is None:
                if v < len(self.fn.args):
                    t = ("a", v)
                    self.wd.setdefault(t, width(self.fn.args[v][1]))
                else:
                    i = self.fn.ins.get(v)
                    t = ("i", v)
                    if i is not None:
                        if i.op == "alloca":
                            t = ("al", v)
                        self.wd.setdefault(t, width(i.get("t")))
            return t
        if isinstance(v, dict):
            if "c" in v:
                return C(v["c"])
            if "n" in v:
                return C(0)
            if "g" in v:
                return ("g", v["g"])
            if "f" in v:
                return ("f", v["f"])
            if v.get("ce") == "gep":
                b = self.val(st, v["b"])
                if "o" in v:
                    return self.mk_add(b, v["o"])
                return ("ce", repr(v))
            if v.get("ce") == "icmp" and v.get("pred") in NEG:
                return self.mk_icmp(v["pred"], self.val(st, v["a"][0]), self.val(st, v["a"][1]), 64)
            return ("ce", repr(v)[:200])
        return ("ce", "?")

    def is_const(self, st, t, n):
        w = self.w(t)
        f = self.possible(st, t, w)
        m = n % (1 << w)
        return f == ((m, m),)

    def const_of(self, st, t):
        if t[0] == "c":
            return t[1]
        f = self.possible(st, t, self.w(t))
        if len(f) == 1 and f[0][0] == f[0][1]:
            return f[0][0]
        return None

    def violate(self, st, ins, msg):
        key = (ins.id if ins is not None else None, msg)
        if key in self._vset:
            return
        self._vset.add(key)
        self.violations.append(dict(fn=self.fn, ins=ins, msg=msg, path=st.path()))

    def field_of(self, st, addr):
        return self.fldof.get(addr)

    # ------------------------------------------------------------------ memory
    def may_alias(self, a, fa, b, fb):
        if a == b:
            return True
        ra, rb = self.root(a), self.root(b)
        if ra == rb:
            oa = a[2] if a[0] == "+" else 0
            ob = b[2] if b[0] == "+" else 0
            if a[0] != "idx" and b[0] != "idx":
                return oa == ob      # accesses are whole fields
            if fa and fb and fa != fb:
                return False
            if a[0] == "idx" and b[0] == "idx" and a[3] == b[3]:
                return a[2] == b[2]
            return True
        ka, kb = ra[0], rb[0]
        if ka in ("g", "al", "f") and kb in ("g", "al", "f"):
            return False
        if ka == "al" and ra[1] not in self.escaped and kb != "al":
            return kb not in ("a", "g") and self._al_passed(ra[1]) and False
        if kb == "al" and rb[1] not in self.escaped and ka != "al":
            return False
        if fa and fb:
            return fa == fb
        if fa or fb:
            # a field against an unnamed location: arrays and scalars reached through plain pointers
            return not (fa and self._named_only(fa)) and not (fb and self._named_only(fb))
        return True

    def _al_passed(self, a):
        return False

    def _named_only(self, f):
        return getattr(self.rule, "named_fields_only", True)

    def mem_store(self, st, addr, val, fld):
        dead = [a for a in st.mem if a != addr and self.may_alias(a, self.fldof.get(a), addr, fld)]
        for a in dead:
            del st.mem[a]
        if fld:
            self.fldof[addr] = fld
        st.mem[addr] = val

    def mem_load(self, st, addr, fld, ins):
        if fld:
            self.fldof[addr] = fld
        v = st.mem.get(addr)
        if v is None:
            v = self.fresh(st, ins)
            st.mem[addr] = v
        return v

    def fresh(self, st, ins):
        """the opaque term of this execution of ins; renames an older one"""
        t = ("i", ins.id)
        self.retire(st, t)
        self.wd[t] = width(ins.get("t"))
        return t

    def retire(self, st, t):
        """Forget the previous meaning of opaque term t."""
        used = False
        old = ("o",) + t[1:]
        if any(mentions(v, t) for v in st.env.values()) or any(mentions(a, t) or mentions(v, t) for a, v in st.mem.items()) \
           or any(mentions(f, t) for f in st.facts) or any(mentions(f, t) for f in st.kb) or (isinstance(st.p, tuple) and mentions(st.p, t)):
            used = True
        if not used:
            return
        # drop what the older 'old' meant
        def m_old(x):
            return mentions(x, old)
        for k in [k for k in st.facts if m_old(k)]:
            del st.facts[k]
        for k in [k for k in st.kb if m_old(k)]:
            del st.kb[k]
        for k in [k for k, v in st.mem.items() if m_old(k) or m_old(v)]:
            del st.mem[k]
        m2 = None
        for k, v in list(st.env.items()):
            if m_old(v):
                n = ("e", k)
                self.wd[n] = self.w(v)
                st.env[k] = n
        if isinstance(st.p, tuple) and m_old(st.p):
            st.p = self.rename_p(st, st.p, {old: ("lost",)})
        m = {t: old}
        self.wd[old] = self.wd.get(t, 64)
        st.facts = {subst(k, m): v for k, v in st.facts.items()}
        st.kb = {subst(k, m): v for k, v in st.kb.items()}
        nm = {}
        for k, v in st.mem.items():
            k2 = subst(k, m)
            if k2 is not k and k in self.fldof:
                self.fldof[k2] = self.fldof[k]
            nm[k2] = subst(v, m)
        st.mem = nm
        for k, v in list(st.env.items()):
            v2 = subst(v, m)
            if v2 is not v:
                st.env[k] = v2
        if isinstance(st.p, tuple):
            st.p = self.rename_p(st, st.p, m)

    def rename_p(self, st, p, m):
        return subst(p, m)

    def clobber(self, st, ins, args):
        mod = self.rule.modifies(self, st, ins, args)
        roots = set()
        for t in args:
            r = self.root(t)
            if r[0] in ("al", "i", "a", "g", "o", "e", "w"):
                roots.add((r, t))
        dead = []
        for a in st.mem:
            f = self.fldof.get(a)
            r = self.root(a)
            hit = False
            if mod is not None:
                if mod == "*":
                    hit = r[0] != "al" or r[1] in self.escaped
                elif (f in mod) or (r[0] == "g" and r[1] in mod):
                    hit = True
            if not hit:
                for rr, t in roots:
                    if r == rr and rr[0] == "al":
                        hit = True
                        break
                if mod is None and not hit:
                    for rr, t in roots:
                        if a == t or (r == rr and not f):
                            hit = True
                            break
            if hit:
                dead.append(a)
        for a in dead:
            del st.mem[a]

    # ------------------------------------------------------------------ running
    def run(self):
        fn = self.fn
        st = State()
        self.rule.start(self, st)
        self.seen = {b: {} for b in fn.order}   # key -> merged state
        self.work = []
        self.inq = set()
        self.prio = {b: k for k, b in enumerate(fn.rpo())}
        self._enter(fn.entry, None, st)
        while self.work:
            # process in reverse post order for quick convergence
            _, _, b, key = heapq.heappop(self.work)
            self.inq.discard((b, key))
            s = self.seen[b].get(key)
            if s is None:
                continue
            self.steps += 1
            if self.steps > self.cap:
                raise Broken("analysis of %s does not converge within %d steps" % (fn.dem, self.cap))
            self._block(b, s.copy())
        return self

    def _freeze(self, st):
        return (st.p, frozenset(st.env.items()), frozenset(st.facts.items()), frozenset(st.kb.items()), frozenset(st.mem.items()))

    def _prune(self, b, st):
        live = self.live_in[b]
        st.env = {k: v for k, v in st.env.items() if k in live}
        acc = self.acc[b]
        rule = self.rule
        keepmem = {}
        for a, v in st.mem.items():
            f = self.fldof.get(a)
            k = self.addrkey(a, f)
            if k in acc or rule.keep_mem(self, a, f):
                keepmem[a] = v
        st.mem = keepmem
        # terms referenced
        ref = set()

        def add(t):
            if isinstance(t, tuple):
                if t in ref:
                    return
                ref.add(t)
                for s in t:
                    if isinstance(s, tuple):
                        add(s)
        for v in st.env.values():
            add(v)
        for a, v in st.mem.items():
            add(a)
            add(v)
        if isinstance(st.p, tuple):
            add(st.p)

        def okterm(t):
            if t in ref or rule.keep(self, t):
                return True
            k = t[0]
            if k in ("a",):
                return t[1] in live
            if k in ("g", "al", "c", "f", "ce"):
                return True
            if k in ("i", "o", "e", "w"):
                return False
            return all(okterm(s) for s in t[1:] if isinstance(s, tuple) and s and isinstance(s[0], str))
        st.facts = {t: f for t, f in st.facts.items() if okterm(t)}
        st.kb = {t: f for t, f in st.kb.items() if okterm(t)}

    def _merge(self, b, a, c):
        """least upper bound of states a (old) and c (new); None if equal to a"""
        changed = False
        n = State()
        n.p = a.p
        n.trail = a.trail
        joined = getattr(self.rule, "joined", None)     # a name for what two states have in common
        fresh_e = set()
        if joined is not None:
            for k, v in list(a.env.items()):
                if c.env.get(k, v) != v:
                    t = self.rule.joinname(b, k)
                    for s in (a, c):
                        if not mentions(s.env[k], t):
                            self.retire(s, t)
        for k, v in a.env.items():
            v2 = c.env.get(k, v)
            if v == v2:
                n.env[k] = v
            else:
                t = ("e", k)
                if joined is not None:
                    t = joined(self, b, k, a, v, c, v2) or t
                if v != t:
                    changed = True
                self.wd[t] = self.w(v)
                n.env[k] = t
                if t[0] == "e":
                    fresh_e.add(t)

        def tainted(t):
            return any(mentions(t, e) for e in fresh_e)
        if fresh_e:
            for _ in range(4):
                more = False
                for k, v in n.env.items():
                    if v != ("e", k) and tainted(v):
                        self.wd[("e", k)] = self.w(v)
                        n.env[k] = ("e", k)
                        fresh_e.add(("e", k))
                        changed = more = True
                if not more:
                    break
            if isinstance(n.p, tuple) and tainted(n.p):
                n.p = subst(n.p, {e: ("lost",) for e in fresh_e})
        for t, f in a.facts.items():
            if tainted(t):
                changed = True
                continue
            f2 = c.facts.get(t)
            if f2 is None:
                changed = True
                continue
            if f2 != f:
                u = union(f, f2)
                if u != f:
                    changed = True
                if len(u) > 12:
                    u = ((u[0][0], u[-1][1]),)
                n.facts[t] = u
            else:
                n.facts[t] = f
        for t, (z, o) in a.kb.items():
            z2, o2 = c.kb.get(t, (0, 0))
            if tainted(t):
                changed = True
                continue
            if (z & z2, o & o2) != (z, o):
                changed = True
            if z & z2 or o & o2:
                n.kb[t] = (z & z2, o & o2)
        for t, v in a.mem.items():
            v2 = c.mem.get(t)
            if v2 != v or tainted(t) or tainted(v):
                changed = True
                continue
            n.mem[t] = v
        if joined is not None and self.rule.merged(self, n):
            changed = True
        return n, changed

    def _enter(self, b, src, st):
        self._prune(b, st)
        self.rule.fold(self, st, b)
        seen = self.seen[b]
        rule = self.rule
        pk = ("p", st.p)
        normal = getattr(rule, "normal", None)
        if rule.merge or getattr(self, "_merged", {}).get((b, pk)):
            old = seen.get(pk)
            if normal is not None:
                normal(self, st, b)
            if old is None:
                seen[pk] = st
                self._queue(b, pk)
            else:
                n, ch = self._merge(b, old, st)
                if ch:
                    n2, _ = self._merge(b, n, n)
                    self._prune(b, n)
                    seen[pk] = n
                    self._queue(b, pk)
            return
        key = self._freeze(st)
        if key in seen:
            return
        same = [k for k in seen if k[0] == st.p] if len(seen) >= rule.max_states else ()
        if len(same) >= rule.max_states:
            # too many: merge everything with this p from here on
            if not hasattr(self, "_merged"):
                self._merged = {}
            self._merged[(b, pk)] = True
            cur = None
            if normal is not None:
                normal(self, st, b)
            for k in same:
                s = seen[k]
                if normal is not None:
                    s = s.copy()
                    normal(self, s, b)
                cur = s.copy() if cur is None else self._merge(b, cur, s)[0]
            cur = self._merge(b, cur, st)[0]
            self._prune(b, cur)
            seen[pk] = cur
            self._queue(b, pk)
            return
        seen[key] = st
        self._queue(b, key)

    def _queue(self, b, key):
        if (b, key) not in self.inq:
            self.inq.add((b, key))
            self._n = getattr(self, "_n", 0) + 1
            heapq.heappush(self.work, (self.prio[b], self._n, b, key))

    def _goto(self, st, src, dst):
        fn = self.fn
        self.rule.edge(self, st, src, dst)
        if st.dead:
            return
        new = {}
        for i in fn.blocks[dst]:
            if i.op != "phi":
                break
            for v, pb in i.get("in"):
                if pb == src:
                    t = self.val(st, v)
                    if (src, dst) in self.back:
                        if t[0] == "c" and width(i.get("t")) > 1 and isinstance(v, int):
                            # computed constant around a loop
                            cs = self.consts.setdefault((dst, i.id), set())
                            if len(cs) < self.rule.unroll:
                                cs.add(t[1])
                            if t[1] not in cs:
                                t = None
                        elif t[0] == "+" and abs(t[2]) <= self.rule.affine:
                            pass
                        elif t[0] in ("+", "idx", "zext", "sext", "trunc", "and", "or", "mul", "shl", "lshr", "op") \
                                and not self._invariant(t, dst):
                            t = None
                    if i.id in self.rule.blur:
                        t = None
                    new[i.id] = t
                    break
        # phis are assigned in parallel: all values were read above; from here on renaming keeps them right
        for k, t in new.items():
            if t is None:
                st.env.pop(k, None)
            else:
                st.env[k] = t
        for k, t in new.items():
            if t is None:
                t = ("i", k)
                self.retire(st, t)
                self.wd[t] = width(fn.ins[k].get("t"))
                st.env[k] = t
                self.rule.opaque(self, st, k, t)
        if dst in self.headers and (src, dst) in self.back:
            self._widen(st, dst)
        self._enter(dst, src, st)

    def _invariant(self, t, hdr):
        """no part of t is computed inside the loop of header hdr"""
        if t[0] in ("i", "o", "e", "w"):
            if t[0] != "i":
                return False
            x = self.fn.ins.get(t[1])
            if x is None:
                return False
            dom = self.fn.dominators()
            b = hdr
            while b in dom and dom[b] != b:
                b = dom[b]
                if b == x.bb:
                    return True
            return False
        return all(self._invariant(s, hdr) for s in t[1:] if isinstance(s, tuple) and s and isinstance(s[0], str))

    def _widen(self, st, hdr):
        exact = self.rule.exact
        for k, v in list(st.env.items()):
            if v[0] == "+" and abs(v[2]) > 16 and v[1][0] not in ("al", "g", "a") and v[1] not in exact:
                t = ("w", hdr, k)
                self.retire(st, t)
                self.wd[t] = self.w(v)
                st.env[k] = t
        for a, v in list(st.mem.items()):
            if (v[0] == "+" and abs(v[2]) > 3 and v[1] not in exact) or (v[0] == "c" and self._counter_like(a, v, hdr)):
                t = ("w", hdr, hash(a))
                self.retire(st, t)
                self.wd[t] = self.w(v)
                st.mem[a] = t

    def _counter_like(self, a, v, hdr):
        c = self.consts.setdefault((hdr, a), set())
        c.add(v[1])
        return len(c) > 6

    def _block(self, b, st):
        fn = self.fn
        self.visited_blocks.add(b)
        states = [st]
        for i in fn.blocks[b]:
            if i.op == "phi":
                continue
            if i.op in ("br", "switch", "ret", "unreachable", "invoke", "resume"):
                for s in states:
                    self._term(b, s, i)
                return
            nxt = []
            for s in states:
                r = self._ins(s, i)
                if r is None:
                    if not s.dead:
                        nxt.append(s)
                else:
                    nxt.extend(x for x in r if not x.dead)
            states = nxt
            if not states:
                return

    def _term(self, b, st, i):
        fn = self.fn
        if i.op == "br":
            succ = i.get("succ")
            if i.get("cond") is None:
                self._goto(st, b, succ[0])
                return
            t = self.val(st, i.get("cond"))
            for truth in (True, False):
                d = self.decide(st, t)
                if d is not None and d != truth:
                    continue
                for s in self.split(st.copy(), t, truth):
                    if d is None:
                        s.note((i, truth))
                    self.rule.branch(self, s, i, truth)
                    if s.dead:
                        continue
                    self._goto(s, b, succ[0] if truth else succ[1])
            return
        if i.op == "switch":
            t = self.val(st, i.get("cond"))
            v = i.get("cond")
            w = self.w(t) if t[0] != "c" else 64
            x = fn.ins.get(v) if isinstance(v, int) else None
            if x is not None:
                w = width(x.get("t"))
            elif isinstance(v, int) and v < len(fn.args):
                w = width(fn.args[v][1])
            rest = full(w)
            bydst = {}
            for c, d in i.get("cases"):
                s1 = ((c % (1 << w), c % (1 << w)),)
                bydst.setdefault(d, []).append(s1[0])
                rest = inter(rest, compl(s1, w))
            split = getattr(self.rule, "split_switch", True)
            for d, ivs in bydst.items():
                groups = [norm(ivs)] if not split else [(x,) for x in ivs]
                if len(ivs) > 1:
                    groups = [norm(ivs)]
                for g in groups:
                    s = st.copy()
                    if self.restrict(s, t, g, w):
                        s.note((i, g))
                        self.rule.branch(self, s, i, g)
                        if not s.dead:
                            self._goto(s, b, d)
            s = st.copy()
            if rest and self.restrict(s, t, rest, w):
                s.note((i, "default"))
                self.rule.branch(self, s, i, "default")
                if not s.dead:
                    self._goto(s, b, i.get("dflt"))
            return
        if i.op == "invoke":
            if self.rule.follow_unwind:
                s = st.copy()
                s.note((i, "throws"))
                r = self.rule.unwind(self, s, i)
                if r is not False and not s.dead:
                    self._goto(s, b, i.get("unwind"))
            r = self._call(st, i)
            for s in (r if r is not None else [st]):
                if s.dead:
                    continue
                if i.get("noreturn"):
                    self.rule.unreachable(self, s, i)
                    continue
                self._goto(s, b, i.get("normal"))
            return
        if i.op == "ret":
            v = self.val(st, i.ops[0]) if i.ops else None
            self.rule.ret(self, st, i, v)
            return
        if i.op == "unreachable":
            self.rule.unreachable(self, st, i)
            return
        if i.op == "resume":
            r = getattr(self.rule, "resume", None)
            if r:
                r(self, st, i)
            return

    def _set(self, st, i, t):
        st.env[i.id] = t

    def _ins(self, st, i):
        op = i.op
        if op == "alloca":
            t = ("al", i.id)
            st.env[i.id] = t
            return None
        if op == "getelementptr":
            b = self.val(st, i.ops[0])
            if i.get("off") is not None:
                t = self.mk_add(b, i.get("off"))
            elif i.get("voff") is not None:
                t = self.mk_idx(b, i.get("coff", 0), [(self.val(st, v), s) for v, s in i.get("voff")])
            else:
                t = self.fresh(st, i)
            st.env[i.id] = t
            p = i.get("path")
            if p:
                f = self.prog.field(p)
                if f:
                    self.fldof[t] = f
            elif t != b and (i.get("et") or "").startswith("["):
                f = self.fldof.get(b)
                if f:
                    self.fldof[t] = f if f.endswith("[]") else f + "[]"
            return None
        if op == "load":
            a = self.val(st, i.ops[0])
            f = self.fn.fld(i) or self.fldof.get(a)
            r = self.rule.load(self, st, i, a, f)
            if r is None:
                r = self._const_load(a, i)
            if r is not None and r[0] == "val":
                st.env[i.id] = r[1]
                return None
            v = self.mem_load(st, a, f, i)
            w = width(i.get("t"))
            st.env[i.id] = self._fit(st, v, w)
            return None
        if op == "store":
            a = self.val(st, i.ops[1])
            v = self.val(st, i.ops[0])
            f = self.fn.fld(i) or self.fldof.get(a)
            r = self.rule.store(self, st, i, a, v, f)
            if r is not None:
                if isinstance(r, list):
                    return r
                if r[0] == "val":
                    v = r[1]
                if r[0] == "apart":         # the rule knows that these addresses are not touched
                    old = {x: st.mem[x] for x in r[1] if x in st.mem and x != a}
                    self.mem_store(st, a, v, f)
                    st.mem.update(old)
                    return None
            if st.dead:
                return []
            self.mem_store(st, a, v, f)
            return None
        if op in ("call",):
            r = self._call(st, i)
            if i.get("noreturn"):
                return r
            return r
        if op == "icmp":
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            w = self._opw(i.ops)
            t = self.mk_icmp(i.get("pred"), a, b, w)
            st.env[i.id] = t
            return None
        if op in ("zext", "sext", "trunc"):
            x = self.val(st, i.ops[0])
            w = width(i.get("t"))
            t = self._cast(st, op, x, w)
            if t is None:
                t = self.fresh(st, i)
            st.env[i.id] = t
            return None
        if op in ("bitcast", "freeze", "addrspacecast", "inttoptr", "ptrtoint"):
            st.env[i.id] = self.val(st, i.ops[0])
            return None
        if op == "select":
            c = self.val(st, i.ops[0])
            d = self.decide(st, c)
            if d is not None:
                st.env[i.id] = self.val(st, i.ops[1] if d else i.ops[2])
                return None
            a, b = self.val(st, i.ops[1]), self.val(st, i.ops[2])
            if a == b:
                st.env[i.id] = a
                return None
            if width(i.get("t")) == 1:
                # and / or of conditions
                if b == C(0):
                    st.env[i.id] = ("band", c, a) if a != C(1) else c
                    return None
                if a == C(1):
                    st.env[i.id] = ("bor", c, b)
                    return None
            s2 = st.copy()
            out = []
            for s in self.split(st, c, True):
                s.env[i.id] = a
                s.note((i, True))
                out.append(s)
            for s in self.split(s2, c, False):
                s.env[i.id] = b
                s.note((i, False))
                out.append(s)
            return out
        if op in ("add", "sub", "and", "or", "xor", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            w = width(i.get("t"))
            st.env[i.id] = self._bin(st, i, op, a, b, w)
            return None
        if op == "extractvalue":
            x = self.val(st, i.ops[0])
            if x[0] == "agg":
                for k, v in x[1]:
                    if k == tuple(i.get("idx")):
                        st.env[i.id] = v
                        return None
            t = ("xv", x) + tuple(i.get("idx"))
            self.wd.setdefault(t, width(i.get("t")))
            st.env[i.id] = t
            return None
        if op == "insertvalue":
            x = self.val(st, i.ops[0])
            v = self.val(st, i.ops[1])
            d = dict(x[1]) if x[0] == "agg" else {}
            d[tuple(i.get("idx"))] = v
            st.env[i.id] = ("agg", tuple(sorted(d.items())))
            return None
        if op in ("fence",):
            return None
        if op == "atomicrmw":
            a = self.val(st, i.ops[0])
            f = self.fn.fld(i) or self.fldof.get(a)
            h = getattr(self.rule, "rmw", None)
            old = self.mem_load(st, a, f, i)
            st.env[i.id] = old
            v = self.val(st, i.ops[1])
            w = width(i.get("t"))
            k = i.get("rmw")
            if k == "xchg":
                new = v
            elif k in ("add", "sub") and v[0] == "c":
                new = self.mk_add(old, v[1] if k == "add" else -v[1])
            else:
                new = None
            if h:
                h(self, st, i, a, f, old, new)
            if new is None:
                st.mem.pop(a, None)
            else:
                self.mem_store(st, a, new, f)
            return None
        if op == "cmpxchg":
            a = self.val(st, i.ops[0])
            f = self.fn.fld(i) or self.fldof.get(a)
            t = self.fresh(st, i)
            s2 = st.copy()
            # success: memory had the expected value
            exp, new = self.val(st, i.ops[1]), self.val(st, i.ops[2])
            st.env[i.id] = ("agg", (((0,), exp), ((1,), C(1))))
            self.mem_store(st, a, new, f)
            h = getattr(self.rule, "cas", None)
            if h:
                h(self, st, i, a, f, True)
            s2.env[i.id] = ("agg", (((0,), t), ((1,), C(0))))
            s2.mem.pop(a, None)
            if h:
                h(self, s2, i, a, f, False)
            return [s for s in (st, s2) if not s.dead]
        # anything else: opaque
        st.env[i.id] = self.fresh(st, i) if i.get("t") else C(0)
        return None

    def _opw(self, ops):
        for o in ops:
            if isinstance(o, int):
                x = self.fn.ins.get(o)
                if x is not None:
                    return width(x.get("t"))
                if o < len(self.fn.args):
                    return width(self.fn.args[o][1])
        return 64

    def _const_load(self, a, ins):
        """load of a known element of a constant table"""
        base, k = (a, 0) if a[0] == "g" else (a[1], a[2]) if a[0] == "+" else (None, 0)
        if base is None or base[0] != "g":
            return None
        g = self.prog.globals.get(base[1])
        if not g or not g.get("const") or "init" not in g:
            return None
        init = g["init"]
        ty = ins.get("t") or ""
        if "a" not in init:
            if k == 0 and ("c" in init or "n" in init or "g" in init):
                return ("val", self.val(None, init))
            return None
        n = len(init["a"])
        if not n or not g.get("size") or g["size"] % n or not g["type"].startswith("["):
            return None
        esz = g["size"] // n
        if k % esz or not 0 <= k // esz < n:
            return None
        e = init["a"][k // esz]
        if isinstance(e, dict) and ("c" in e or "n" in e or "g" in e):
            if (width(ty) + 7) // 8 == esz:
                return ("val", self.val(None, e))
        return None

    def evalterm(self, t, m):
        """value of term t when the opaque terms have the values in m (signed interpretation left to the caller)"""
        if t in m:
            return m[t]
        k = t[0]
        if k == "c":
            return t[1]
        sub = lambda x: self.evalterm(x, m)

        def sg(v, w):
            v &= (1 << w) - 1
            return v - (1 << w) if v >> (w - 1) else v
        if k == "+":
            v = sub(t[1])
            return None if v is None else (v + t[2])
        if k == "zext":
            v = sub(t[2])
            return None if v is None else v & ((1 << self.w(t[2])) - 1)
        if k == "sext":
            v = sub(t[2])
            return None if v is None else sg(v, self.w(t[2]))
        if k == "trunc":
            v = sub(t[2])
            return None if v is None else v & ((1 << t[1]) - 1)
        if k in ("and", "or"):
            v = sub(t[1])
            return None if v is None else (v & t[2] if k == "and" else v | t[2])
        if k == "not":
            v = sub(t[1])
            return None if v is None else 1 - (v & 1)
        if k in ("band", "bor"):
            a, b = sub(t[1]), sub(t[2])
            return None if a is None or b is None else (a & b if k == "band" else a | b)
        if k == "icmp":
            a, b = sub(t[2]), sub(t[3])
            if a is None or b is None:
                return None
            w = max(self.w(t[2]), 1 if t[3][0] == "c" else self.w(t[3]))
            s = pred_set(t[1], b, w)
            a %= 1 << w
            return int(any(lo <= a <= hi for lo, hi in s))
        if k == "op":
            a, b = sub(t[2]), sub(t[3])
            if a is None or b is None:
                return None
            w = self.w(t)
            M = (1 << w) - 1
            if t[1] in ("sdiv", "srem", "ashr"):
                a, b = sg(a, w), sg(b, w)
            elif t[1] in ("udiv", "urem", "lshr"):
                a, b = a & M, b & M
            try:
                return {"add": lambda: a + b, "sub": lambda: a - b, "and": lambda: a & b, "or": lambda: a | b,
                        "xor": lambda: a ^ b, "mul": lambda: a * b, "shl": lambda: (a << b) & M, "lshr": lambda: a >> b,
                        "ashr": lambda: a >> b, "udiv": lambda: a // b, "urem": lambda: a % b,
                        "sdiv": lambda: int(a / b), "srem": lambda: a - b * int(a / b)}[t[1]]()
            except (ZeroDivisionError, ValueError):
                return None
        return None

    def consistent(self, st, m):
        """are all facts of st that can be evaluated under m true?"""
        for t, f in st.facts.items():
            v = self.evalterm(t, m)
            if v is None:
                continue
            w = self.w(t)
            v %= 1 << w
            if not any(lo <= v <= hi for lo, hi in f):
                return False
        return True

    def _fit(self, st, v, w):
        if v[0] == "c":
            return v
        return v

    def _cast(self, st, op, x, w):
        if x[0] == "c":
            return x
        xw = self.w(x)
        if op == "zext":
            if x[0] == "trunc" and x[1] == 1 and self.w(x[2]) == w:
                return x[2]      # bool round trip
            if x[0] == "zext":
                return ("zext", w, x[2])
            return ("zext", w, x)
        if op == "sext":
            if x[0] == "zext":
                return ("zext", w, x[2])
            return ("sext", w, x)
        # trunc
        if x[0] in ("zext", "sext"):
            iw = self.w(x[2])
            if iw == w:
                return x[2]
            if iw < w:
                return (x[0], w, x[2])
            return self._cast(st, "trunc", x[2], w)
        if x[0] == "and" and w > 1:
            return self.mk_and(self._cast(st, "trunc", x[1], w), x[2], w) if x[2] < (1 << w) else ("trunc", w, x)
        if x[0] == "trunc":
            return ("trunc", w, x[2])
        if x[0] == "+":
            t = self._cast(st, "trunc", x[1], w)
            return self.mk_add(t, x[2])
        if xw == w:
            return x
        return ("trunc", w, x)

    def _bin(self, st, i, op, a, b, w):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            m = (1 << w) - 1
            try:
                r = {"add": lambda: x + y, "sub": lambda: x - y, "and": lambda: x & y, "or": lambda: x | y,
                     "xor": lambda: x ^ y, "mul": lambda: x * y, "shl": lambda: (x << y) & m,
                     "lshr": lambda: (x & m) >> y, "ashr": lambda: x >> y,
                     "udiv": lambda: (x & m) // (y & m), "urem": lambda: (x & m) % (y & m),
                     "sdiv": lambda: int(x / y), "srem": lambda: x - y * int(x / y)}[op]()
                if op in ("and", "or", "xor") or True:
                    return C(r)
            except (ZeroDivisionError, ValueError):
                return self.fresh(st, i)
        if op in ("add", "and", "or", "xor", "mul") and a[0] == "c":
            a, b = b, a
        if op == "add" and b[0] == "c":
            return self.mk_add(a, b[1])
        if op == "sub" and b[0] == "c":
            return self.mk_add(a, -b[1])
        if op == "sub" and a == b:
            return C(0)
        if op == "sub":
            # difference of addresses with a common part
            ra, rb = a, b
            ka = kb = 0
            if ra[0] == "+":
                ka, ra = ra[2], ra[1]
            if rb[0] == "+":
                kb, rb = rb[2], rb[1]
            if ra == rb:
                return C(ka - kb)
        if op == "and":
            if w == 1:
                if b[0] == "c":
                    return a if b[1] & 1 else C(0)
                return ("band", a, b)
            if b[0] == "c":
                return self.mk_and(a, b[1], w)
        if op == "or":
            if w == 1:
                if b[0] == "c":
                    return C(1) if b[1] & 1 else a
                return ("bor", a, b)
            if b[0] == "c":
                return self.mk_or(a, b[1], w)
        if op == "xor" and w == 1 and b[0] == "c":
            return self.mk_not(a) if b[1] & 1 else a
        if op == "xor" and b == C(-1):
            return ("inv", a)
        if op == "mul" and b == C(1):
            return a
        if op in ("shl", "lshr", "ashr", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "add", "sub"):
            t = ("op", op, a, b) if op != "and" else ("op", op, a, b)
            if len(repr(t)) < 300:
                self.wd[t] = w
                return t
        return self.fresh(st, i)

    # ------------------------------------------------------------------ calls
    IGNORE = ("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.invariant", "llvm.experimental.noalias", "llvm.donothing",
              "llvm.stacksave", "llvm.stackrestore", "llvm.va_", "llvm.prefetch")
    PASS = ("llvm.expect", "llvm.launder", "llvm.strip", "llvm.threadlocal", "llvm.ptr.annotation")

    def _call(self, st, i):
        c = i.get("callee", "") or ""
        if c.startswith(self.IGNORE):
            return None
        if c.startswith(self.PASS):
            st.env[i.id] = self.val(st, i.ops[0])
            return None
        args = [self.val(st, o) for o in i.ops]
        if c.startswith("llvm.type.test") or c.startswith("llvm.public.type.test"):
            st.env[i.id] = C(1)
            return None
        if c.startswith(("llvm.memcpy", "llvm.memmove")):
            self._memcpy(st, i, args)
            return None
        if c.startswith("llvm.memset"):
            self._memset(st, i, args)
            return None
        if c.startswith("llvm.objectsize") or c.startswith("llvm.is.constant"):
            st.env[i.id] = self.fresh(st, i)
            return None
        r = self.rule.call(self, st, i, args)
        if r is None and i.callee in ("cwd_rdata", "cwd_wdata"):       # stub/threadsafe: the data that belongs to this lock
            r = ("val", args[0])
        if st.dead and not isinstance(r, list):
            return []
        if isinstance(r, list):
            out = []
            for s, t in r:
                if s.dead:
                    continue
                if i.get("t") is not None:
                    s.env[i.id] = t if t is not None else self.fresh(s, i)
                out.append(s)
            return out
        if r is not None and r[0] == "val":
            if i.get("t") is not None:
                st.env[i.id] = r[1]
            return None
        if r != ("pure",):
            self.clobber(st, i, args)
        if i.get("t") is not None:
            st.env[i.id] = self.fresh(st, i)
        return None

    def _memcpy(self, st, i, args):
        dst, src, n = args[0], args[1], args[2]
        h = getattr(self.rule, "memcpy", None)
        if h:
            r = h(self, st, i, dst, src, n)
            if st.dead:
                return
        rd, od = self.root(dst), dst[2] if dst[0] == "+" else 0
        rs, os_ = self.root(src), src[2] if src[0] == "+" else 0
        copy = []
        if n[0] == "c" and src[0] != "idx":
            for a, v in st.mem.items():
                if a[0] == "idx":
                    continue
                ra = self.root(a)
                oa = a[2] if a[0] == "+" else 0
                if ra == rs and os_ <= oa < os_ + n[1]:
                    copy.append((oa - os_, v, self.fldof.get(a)))
        dead = []
        for a in st.mem:
            ra = self.root(a)
            if ra == rd:
                oa = a[2] if a[0] == "+" else 0
                if a[0] == "idx" or n[0] != "c" or dst[0] == "idx" or od <= oa < od + n[1]:
                    dead.append(a)
            elif rd[0] not in ("al", "g") and ra[0] not in ("al", "g") and not self.fldof.get(a):
                dead.append(a)
        for a in dead:
            del st.mem[a]
        if dst[0] != "idx":
            for o, v, f in copy:
                a = self.mk_add(dst, o)
                st.mem[a] = v
                if f:
                    self.fldof.setdefault(a, f)

    def _memset(self, st, i, args):
        dst, n = args[0], args[2]
        h = getattr(self.rule, "memset", None)
        if h:
            h(self, st, i, dst, args[1], n)
        rd, od = self.root(dst), dst[2] if dst[0] == "+" else 0
        dead = []
        for a in st.mem:
            ra = self.root(a)
            if ra == rd:
                oa = a[2] if a[0] == "+" else 0
                if a[0] == "idx" or n[0] != "c" or dst[0] == "idx" or od <= oa < od + n[1]:
                    dead.append(a)
        for a in dead:
            del st.mem[a]


def analyse(fn, rule, cap=40000):
    fl = Flow(fn, rule, cap)
    rule.fl = fl
    fl.run()
    return fl
