"""The demangler terminates.

Every decoding function is analysed for three kinds of starting point (a character is left, the end is reached, unknown).  On
every path around a loop the position moved forward, or a number that does not come from the input counts down.  Every nested
call is an edge of a graph, which knows whether the position moved since the caller started, whether the position is one
that was recorded earlier (a replay), which nesting counters were found small and which are larger than when the caller
started.  A cycle of that graph either moves forward without a replay, or every replay in it depends on a counter that the
cycle increments.  A session inside a session starts behind a character that was eaten."""
from core import *
from demangle import *
from flow import mentions, subst

FLOORS = {"functions": 20, "loops": 15, "nested calls": 60, "replays": 2}
TECHNIQUE = "typestate of the position per loop and per call (moved / not moved / replayed), termination argument on the resulting call graph"
NOTE = "a substitution whose text starts with another substitution is taken to name an earlier one (its number was compared with the size of the list when it was first read)"
LIMIT = 1000
COUNTERS = ("inside_type_", "inside_substitution_")
POS = ((0, 1 << 30),)
KEY = ("w", "pos")
MAX = (1 << 31) - 2


class Move(Rule):
    max_states = 40
    unroll = 2
    affine = 2
    same_base = True

    def __init__(self, prog, ctx, fn, start, summary, table):
        self.prog, self.ctx, self.fn, self.first, self.summary = prog, ctx, fn, start, summary
        self.off = {m: prog.offset(S[:-2], m) for m in ("str_", "pos_", "maxpos_", "result_") + COUNTERS}
        self.names = {v: k for k, v in self.off.items()}
        self.calls = {}
        self.table = table
        self.bad = {}
        self.moves = True                   # whoever says success has moved
        self.bodies = {}
        self.loops = set()

    # p = (moved since the start, replaying, ((loop, moved), ...), ((position, moved, replaying, loops), ...), low counters, (counter, value at start)...)
    def start(self, fl, st):
        st.p = (False, False, (), (), (), ())

    def keep(self, fl, t):
        return t[0] == "m0"

    def keep_mem(self, fl, a, f):
        return self.member(fl, a) is not None

    def member(self, fl, a):
        b, k = (a[1], a[2]) if a[0] == "+" else (a, 0)
        if k not in self.names:
            return None
        if b == ("a", 0) and self.fn.base.startswith(S) and not self.fn.base.endswith("::decode_encoding"):
            return self.names[k]
        if b[0] == "al" and "session" in str(self.fn.ins[b[1]].get("at")):
            return self.names[k]
        if self.fn.base.startswith(B + "qualifier_list") and b[0] in ("i", "o", "e", "m0") and self.fldname(fl, a, k):
            return self.names[k]
        return None

    def fldname(self, fl, a, k):
        f = fl.fldof.get(a)
        return f is not None and f.endswith(self.names[k])

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), st.path()))

    def load(self, fl, st, ins, a, f):
        if f:
            fl.fldof[a] = f
        m = self.member(fl, a)
        if m == "maxpos_":
            return ("val", C(MAX))
        if m == "pos_":
            if a not in st.mem:
                t = ("m0", a)
                fl.wd[t] = 32
                st.mem[a] = t
                st.facts[t] = POS
                ch = ("ch", t)
                fl.wd[ch] = 8
                if self.first != "any":
                    st.facts[ch] = ((1, 255),) if self.first == "char" else ((0, 0),)
                st.p = st.p[:5] + (tuple(x for x in st.p[5] if x[0] != "pos") + (("pos", a),),)
            return ("val", st.mem[a])
        if m == "result_":
            if a not in st.mem:
                st.mem[a] = C(1)
            return ("val", st.mem[a])
        if m in COUNTERS:
            if a not in st.mem:
                t = ("m0", a)
                fl.wd[t] = 32
                st.mem[a] = t
            return ("val", st.mem[a])
        b = a[1] if a[0] == "+" else a
        if b[0] == "g":
            t = self.table.flat(b[1])
            v = t.get(a[2] if a[0] == "+" else 0) if t is not None else None
            if v is not None:
                return ("val", fl.val(None, v))
        if ins.get("t") == "i8":
            x = lin.lf(fl, a)
            for t, c in x[0].items():
                u = t
                while u[0] in ("sext", "zext"):
                    u = u[2]
                for y in st.p[5]:
                    if y[0] == "pos" and c == 1:
                        p = st.mem.get(y[1])
                        base, k = (p[1], p[2]) if p is not None and p[0] == "+" else (p, 0)
                        if u == base:
                            v = ("ch", base) if x[1] == 0 else ("ch", base, C(x[1]))
                            fl.wd[v] = 8
                            q = fl.possible(st, v, 8)
                            return ("val", C(q[0][0]) if q and q[0][0] == q[-1][1] else v)
        return None

    def moved(self, p):
        return (True, p[1], tuple((h, m | 1) for h, m in p[2])) + p[3:]

    def store(self, fl, st, ins, a, v, f):
        if f:
            fl.fldof[a] = f
        m = self.member(fl, a)
        if m != "pos_":
            return None
        if a not in st.mem:
            self.load(fl, st, ins, a, f)
        old = st.mem[a]
        x = lin.lf(fl, fl.mk_add(v, 0))
        p = st.p
        saved = tuple(s for s in p[3] if s[0] != old) + ((old, p[0], p[1], p[2]),)
        if v == C(0) and fl.root(a)[0] == "al":
            pass                            # a new session
        elif x[0].get(old) == 1:
            rest = {t: c for t, c in x[0].items() if t != old}
            lo = x[1]
            for t, c in rest.items():
                q = fl.possible(st, t, fl.w(t))
                lo += min(q[0][0] * c, q[-1][1] * c) if q and q[-1][1] < 1 << 31 else -1 << 40
            if lo > 0:
                p = self.moved(p)
            elif lo < 0:
                p = (False, True, tuple((h, m & 2) for h, m in p[2])) + p[3:]
        else:
            for s in saved:
                if x[0].get(s[0]) == 1 and len(x[0]) == 1 and x[1] >= 0:
                    h = dict(s[3])
                    p = (s[1], s[2], tuple((l, h.get(l, 0) & 1 | m & 2) for l, m in p[2])) + p[3:]
                    if x[1] > 0:
                        p = self.moved(p)
                    break
            else:
                p = (False, True, tuple((h, m & 2) for h, m in p[2])) + p[3:]
        st.p = p[:3] + (saved,) + p[4:]
        neg = False
        if x[0].get(old) == 1:
            hi = x[1] + (1 << 30)
            for t, c in x[0].items():
                if t != old:
                    q = fl.possible(st, t, fl.w(t))
                    hi += max(q[0][0] * c, q[-1][1] * c) if q and q[-1][1] < 1 << 31 else 1 << 40
            neg = -(1 << 31) <= lo and hi < 0
        t = ("i", ins.id)
        fl.retire(st, t)
        fl.wd[t] = 32
        if v[0] != "c":
            m2 = {v: t}
            st.env = {k: subst(y, m2) for k, y in st.env.items()}
            st.mem = {k: y if k == a else subst(y, m2) for k, y in st.mem.items()}
        st.facts[t] = ((1 << 31, (1 << 32) - 1),) if neg else POS
        fl.wd[("ch", t)] = 8
        return ("val", t)

    def fold(self, fl, st, b):
        live = set()
        for s in st.p[3]:
            if any(mentions(v, s[0]) for v in st.env.values()) or any(mentions(v, s[0]) for v in st.mem.values()):
                live.add(s[0])
        st.p = st.p[:3] + (tuple(s for s in st.p[3] if s[0] in live),) + st.p[4:]
        if len(self.fn.preds[b]) < 2:
            return
        for y in st.p[5]:
            t = st.mem.get(y[1])
            if t is None or t == KEY:
                continue
            m = {t: KEY}
            if mentions_any(st, KEY):
                for n in range(9):
                    u = ("w", "pos%d" % n)
                    if not mentions_any(st, u):
                        break
                fl.retire(st, u)
                m[KEY] = u
                fl.wd[u], fl.wd[("ch", u)] = 32, 8
            else:
                fl.retire(st, KEY)
            for d in ("facts", "kb"):
                setattr(st, d, {subst(k, m): v for k, v in getattr(st, d).items()})
            st.mem = {subst(k, m): subst(v, m) for k, v in st.mem.items()}
            st.env = {k: subst(v, m) for k, v in st.env.items()}
            st.p = subst(st.p, m)
            fl.wd[KEY], fl.wd[("ch", KEY)] = 32, 8

    # -- loops
    def body(self, h):
        r = self.bodies.get(h)
        if r is None:
            fn = self.fn
            order = {b: k for k, b in enumerate(fn.rpo())}
            r, work = {h}, [p for p in fn.preds[h] if order.get(p, -1) >= order[h]]
            while work:
                b = work.pop()
                if b not in r:
                    r.add(b)
                    work += fn.preds[b]
            self.bodies[h] = r
        return r

    def edge(self, fl, st, src, dst):
        p = st.p
        loops = [(h, m) for h, m in p[2] if dst in self.body(h)]
        if dst in fl.headers:
            again = False
            d = dict(loops)
            if (src, dst) in fl.back and dst in d:
                self.loops.add(dst)
                again = not d[dst] & 1
                if d[dst] == 2 and not self.counts(dst):
                    i = self.fn.blocks[src][-1]
                    self.report(st, i, "can go around a loop without getting further")
                    st.dead = True
            loops = [(h, m) for h, m in loops if h != dst] + [(dst, 2 if again else 0)]
        st.p = p[:2] + (tuple(sorted(loops)),) + p[3:]

    def counts(self, h):
        """a number counts towards a fixed limit, or an iterator moves"""
        fn = self.fn
        body = self.body(h)
        for b in body:
            for i in fn.blocks[b]:
                if i.is_call() and re.search(r"iterator.*::operator(\+\+|--|\+=)$|::next_qualifier$|^std::(advance|next|prev)<", i.callee or ""):
                    return True
        for i in fn.blocks[h]:
            if i.op != "phi":
                break
            if i.get("t") == "i8":
                continue
            ins = [v for v, b in i.get("in") if b in body]
            outs = [v for v, b in i.get("in") if b not in body]
            if not ins or not all(self.step(i.id, v) for v in ins) or not all(self.fixed(v) for v in outs):
                continue
            for b in body:
                t = fn.blocks[b][-1]
                if any(s not in body for s in fn.succs(b)) and t.op == "br" and self.tests(t, i.id):
                    return True
        return False

    def step(self, phi, v):
        x = self.fn.defi(v) if isinstance(v, int) else None
        if x is None:
            return False
        if x.op == "phi":
            return x.id != phi and all(self.step(phi, u) for u, b in x.get("in"))
        if x.op in ("add", "sub"):
            return x.ops[0] == phi and isinstance(x.ops[1], dict) and x.ops[1].get("c", 0) != 0
        if x.op == "getelementptr":
            return x.ops[0] == phi and len(x.ops) == 2 and isinstance(x.ops[1], dict) and x.ops[1].get("c", 0) != 0
        if x.op in ("sdiv", "udiv", "lshr", "ashr"):
            return x.ops[0] == phi and isinstance(x.ops[1], dict) and x.ops[1].get("c", 0) > (1 if "div" in x.op else 0)
        return False

    def fixed(self, v, d=0):
        """not computed from the characters of the input"""
        if isinstance(v, dict) or v < len(self.fn.args):
            return True
        x = self.fn.defi(v)
        if x is None or d > 8:
            return False
        if x.op == "load":
            return x.get("t") != "i8"
        if x.op == "phi":
            return False
        if x.is_call():
            return bool(re.search(r"::(size|length)$", x.callee or ""))
        return all(self.fixed(o, d + 1) for o in x.ops if isinstance(o, int))

    def tests(self, br, phi):
        seen, work = set(), [br.get("cond") if br.get("cond") is not None else br.ops[0] if br.ops else None]
        while work:
            x = self.fn.defi(work.pop()) if isinstance(work[-1], int) else work.pop() and None
            if x is None or x.id in seen:
                continue
            seen.add(x.id)
            if x.id == phi:
                return True
            if x.op in ("icmp", "and", "or", "xor", "select", "zext", "sext", "trunc", "add", "sub"):
                work += [o for o in x.ops if isinstance(o, int)]
            elif x.op == "phi":
                work += [u for u, b in x.get("in") if isinstance(u, int)]
        return False

    # -- calls
    def call(self, fl, st, ins, args):
        c = ins.callee or "indirect"
        if c.startswith(S + "decode_") or c.startswith(B + "qualifier_list") and c.endswith("::decode_qualifiers"):
            ses = c.startswith(S)
            g = c[len(S):] if ses else "decode_qualifiers"
            first = "any"
            pa = fl.mk_add(args[0], self.off["pos_"]) if ses and g != "decode_encoding" else None
            mine = [y[1] for y in st.p[5] if y[0] == "pos"]
            if pa is not None and self.member(fl, pa) and pa not in st.mem:
                self.load(fl, st, ins, pa, None)
            pos = st.mem.get(pa)
            if pos is not None:
                f = fl.possible(st, ("ch", pos), 8)
                first = "end" if f == ((0, 0),) else "char" if f and f[0][0] > 0 else "any"
            low, more, less = set(), set(), set()
            base = pa and fl.mk_add(pa, -self.off["pos_"])
            for m in COUNTERS if base else ():
                a = fl.mk_add(base, self.off[m])
                v = st.mem.get(a, ("m0", a))
                x = lin.lf(fl, v)
                if x[0] == {("m0", a): 1}:
                    if x[1] > 0:
                        more.add(m)
                    elif x[1] < 0:
                        less.add(m)
                else:
                    less.add(m)
                fl.wd[("m0", a)] = 32
                q = fl.possible(st, ("m0", a), 32)
                q = [(l, h) for l, h in q if l < 1 << 31]
                if q and q[-1][1] <= LIMIT:
                    low.add(m)
            gone = st.p[0]
            if g == "decode_encoding" and not gone:
                x = lin.lf(fl, args[1])
                for y in mine:
                    q = st.mem.get(y)
                    if x[1] > 0 and q is not None and any(c == 1 and unext(t) == q for t, c in x[0].items()):
                        gone = True
            k = (g, first, gone, st.p[1], frozenset(low), frozenset(more), frozenset(less))
            self.calls.setdefault(k, (ins, st.path()))
            if g == "decode_qualifiers":
                return ("pure",)
            if g == "decode_encoding":
                ok = st.copy()
                fl.clobber(ok, ins, args)
                t = fl.fresh(ok, ins)
                ok.facts[t] = POS
                return [(ok, t), (st, C(-1 << 31))]
            r = base and fl.mk_add(base, self.off["result_"])
            failed = r is not None and st.mem.get(r) == C(0)
            out = []
            for res in (0,) if failed else (1, 0):
                s = st.copy() if res else st
                kept = {fl.mk_add(base, self.off[m]): s.mem.get(fl.mk_add(base, self.off[m])) for m in COUNTERS} if base else {}
                fl.clobber(s, ins, args)
                for a, v in kept.items():
                    if v is not None:
                        s.mem[a] = v
                if base:
                    s.mem[r] = C(res)
                    old = pos
                    p = s.p
                    if old is not None and mentions_any(s, old):
                        p = p[:3] + (tuple(x for x in p[3] if x[0] != old) + ((old, p[0], p[1], p[2]),),) + p[4:]
                    if res and self.summary.get((g, first), True):
                        p = self.moved(p)
                    s.p = p
                    t = ("w", ins.id)
                    fl.retire(s, t)
                    fl.wd[t] = 32
                    s.facts[t] = POS
                    fl.wd[("ch", t)] = 8
                    s.mem[pa] = t
                    s.p = s.p[:5] + (tuple(x for x in s.p[5] if x != ("pos", pa)) + (("pos", pa),),)
                out.append((s, C(res)))
            return out
        if c.startswith(("std::", "operator ", NS, "libcwd::")) or c == "indirect":
            return ("pure",)
        return None

    def ret(self, fl, st, ins, v):
        s = fl.possible(st, v, fl.w(v)) if v is not None else ((0, 0),)
        if s and s != ((0, 0),) and not (st.p[0] and not st.p[1]):
            if self.moves:
                self.why = st.path()
            self.moves = False


def unext(t):
    while t[0] in ("sext", "zext"):
        t = t[2]
    return t


def mentions_any(st, t):
    return any(mentions(v, t) for v in st.env.values()) or any(mentions(v, t) for v in st.mem.values())


B = "__gnu_cxx::demangler::"


class Edge:
    def __init__(self, *a):
        self.of, self.to, self.moved, self.replay, self.low, self.more, self.ins, self.path = a


def reach(a, b, edges):
    """is there a way from a to b?"""
    seen, work = {a}, [a]
    while work:
        x = work.pop()
        if x == b:
            return True
        for e in edges:
            if e.of == x and e.to not in seen:
                seen.add(e.to)
                work.append(e.to)
    return False


def run(ctx):
    prog = program([r"session<std::allocator<char>>::(decode_|add_substitution)", r"::qualifier_list<.*>::decode_qualifiers", r"^libcwd::_private_::demangle_(symbol|type)$"],
                   [r"^libcwd::_private_::demangle_(type|symbol)$"])
    fns = {}
    for f in prog.fns.values():
        if f.base.startswith(S + "decode_"):
            fns.setdefault(f.base[len(S):], f)
        elif f.base.endswith("::decode_qualifiers"):
            fns["decode_qualifiers"] = f
    summary = {}
    tab = Table(prog)
    done = {}
    todo = [("decode_encoding", "any"), ("decode_type", "any")]
    for _ in range(12):
        work = list(todo)
        done = {}
        while work:
            n, first = work.pop()
            if (n, first) in done or n not in fns:
                continue
            r = Move(prog, ctx, fns[n], first, summary, tab)
            analyse(fns[n], r, 400000)
            done[n, first] = r
            work += [(k[0], k[1]) for k in r.calls]
        change = False
        for k, r in done.items():
            if summary.get(k, True) != r.moves:
                summary[k] = r.moves
                change = True
        if not change:
            break
    edges = []
    for (n, first), r in sorted(done.items()):
        fn = fns[n]
        ctx.analysed(fn)
        ctx.count("functions")
        ctx.count("loops", len(r.loops))
        ctx.count("nested calls", len(r.calls))
        for msg, (w, p) in r.bad.items():
            ctx.violation("loop|%s|%s" % (n, msg), "%s %s" % (n, msg), w, p)
        if not r.bad:
            ctx.ok("%s (%s): each loop gets further or counts" % (n, first))
        for k, (ins, path) in r.calls.items():
            g, gf, moved, replay, low, more, less = k
            if g not in fns:
                continue
            e = Edge((n, first), (g, gf), moved and not replay, replay, low, more, ins, path)
            if less and n != "decode_encoding":
                ctx.violation("depth|%s|%s" % (n, g), "%s calls %s with a smaller nesting counter (%s) than it was called with" % (n, g, ", ".join(sorted(less))), ins.where(), path)
            if g == "decode_encoding":
                if not moved:
                    ctx.violation("nested|%s" % n, "%s starts a nested session without having moved" % n, ins.where(), path)
                continue
            if replay:
                ctx.count("replays")
                if not low:
                    ctx.violation("replay|%s" % n, "%s decodes at a recorded position without looking how deep it is" % n, ins.where(), path)
            edges.append(e)
    # replays that are cut off
    left = list(edges)
    more = True
    while more:
        more = False
        for e in list(left):
            if not e.replay:
                continue
            for c in e.low:
                if c in e.more or not reach(e.to, e.of, [x for x in left if c not in x.more]):
                    left.remove(e)
                    more = True
                    break
    for e in [e for e in left if e.replay]:
        left.remove(e)
        if e.of[0] == e.to[0] == "decode_substitution" and e.low:
            continue                        # what a substitution stands for only names earlier ones
        if e.low:
            ctx.violation("replay|%s|%s" % (e.of[0], e.to[0]), "%s replays %s, which can come back here without increasing %s" % (e.of[0], e.to[0], " or ".join(sorted(e.low))), e.ins.where(), e.path)
    left = [e for e in left if not e.moved]
    for e in left:
        if reach(e.to, e.of, left):
            ctx.violation("recursion|%s|%s" % (e.of[0], e.to[0]), "%s calls %s, which can come back here without getting further" % (e.of[0], e.to[0]), e.ins.where(), e.path)
    ctx.ok("%d nested calls: every cycle moves forward or is cut off" % len(edges))
