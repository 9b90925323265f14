"""The demangler reads its input only between the first byte and the terminating zero.

Along every path of every decoding function: the position of a session stays between zero and the terminating zero (proved for
each assignment to it, inductively: what is called keeps it so), and a byte behind a known position is read only when
the bytes before it were found not to be zero.  A byte before a known position is read only after comparing the
pointer with one that is known not to be before the input.  Positions that are stored for later, handed to a nested
session, or given to a library function are readable ones; after a failed decode the position is not used before it was
restored."""
from core import *
from demangle import *
from flow import mentions, subst, NEG
from checks.c26 import Fail, flags, POS, IMIN

FLOORS = {"functions": 20, "reads of the input": 60, "assignments to the position": 30, "positions kept": 4}
TECHNIQUE = "abstract interpretation of positions in the input: canonical terms for input bytes, branch facts that they are not zero, inductive loop invariants"


def key(x):
    return tuple(sorted(x[0].items(), key=repr))


def feeding(fn, v):
    out, work = set(), [v]
    while work:
        x = fn.defi(work.pop()) if work else None
        if x is None or x.id in out:
            continue
        if x.op == "phi":
            out.add(x.id)
            work += [v for v, b in x.get("in") if isinstance(v, int)]
        elif x.op in ("add", "sub", "zext", "sext", "trunc"):
            work += [v for v in x.ops if isinstance(v, int)]
    return out


def byte(fn, v):
    x = fn.defi(v) if isinstance(v, int) else None
    while x is not None and x.op in ("sext", "zext") and isinstance(x.ops[0], int):
        x = fn.defi(x.ops[0])
    return x is not None and x.op == "load" and x.get("t") == "i8"


class Cur(Fail):
    max_states = 40
    unroll = 3
    affine = 3

    def __init__(self, prog, ctx, fn, bases, inputs=()):
        Fail.__init__(self, prog, ctx, fn, bases)
        self.inputs = set(inputs)
        self.assumed = set()
        self.phibad = {}
        self.phiin = set()
        self.bytes = set()
        for i in fn.calls(r"::add_qualifier_start$"):
            if len(i.ops) == 5:
                self.flags |= feeding(fn, i.ops[3])
        for i in fn.instrs():
            if i.op == "phi" and any(isinstance(v, dict) for v, b in i.get("in")) and any(byte(fn, v) for v, b in i.get("in")):
                self.bytes.add(i.id)
                self.flags.add(i.id)                # a byte, or zero at the end
        for _ in range(4):
            for i in fn.instrs():
                if i.op == "phi" and i.get("t") in ("i8", "i32") and i.id not in self.flags:
                    for v, b in i.get("in"):
                        x = fn.defi(v) if isinstance(v, int) else None
                        while x is not None and x.op in ("trunc", "sext", "zext") and isinstance(x.ops[0], int):
                            x = fn.defi(x.ops[0])
                        if x is not None and x.op == "phi" and x.id in self.bytes:
                            self.flags.add(i.id)
                            self.bytes.add(i.id)

    # -- the input as strings
    def split(self, fl, t):
        """a pointer into an input: (which input, position as linear form); None for anything else"""
        x = lin.lf(fl, t)
        for a, c in x[0].items():
            if c == 1 and (a in self.inputs or a[0] == "str"):
                r = dict(x[0])
                del r[a]
                return a, ({k: v for k, v in r.items()}, x[1])
        if len(x[0]) == 1:
            a, c = next(iter(x[0].items()))
            if c == 1 and self.phi(a):
                return a, ({}, x[1])
        return None

    def phi(self, t):
        if t[0] in ("i", "o", "e") and len(t) > 1 and t[1] in self.phiin:
            return True
        return False

    def at(self, s, x):
        return (s, key(x))

    def valid(self, fl, st, s, k):
        """is the position of which k is the key (offset 0) known to be inside string s?"""
        if s[0] in ("i", "o", "e"):
            self.assumed.add(s[1])
            return k == ()
        if k == ():
            return True
        if len(k) == 1 and k[0][1] == 1:
            t = k[0][0]
            while t[0] in ("sext", "zext", "trunc"):
                t = t[2]
            if t[0] == "pv":
                return True
            if t in self.argpos:
                return True
            if t[0] in ("i", "o", "e") and t[1] in self.posphi:
                self.assumed.add(t[1])
                return True
        # position + what a nested session consumed behind it
        for t, c in k:
            u = t
            while u[0] in ("sext", "zext", "trunc"):
                u = u[2]
            if c == 1 and u[0] == "enc":
                rest = tuple(y for y in k if y[0] != t)
                if (s, rest) == u[2][0]:
                    return True
        return False

    argpos = ()
    posphi = ()

    def encoff(self, s, x):
        """offset of a position that contains what a nested session consumed, relative to its end"""
        for t, c in x[0].items():
            u = t
            while u[0] in ("sext", "zext", "trunc"):
                u = u[2]
            if c == 1 and u[0] == "enc":
                return u[2][1]
        return 0

    def nonzero(self, fl, st, s, k, o):
        t = ("ch", s, k, o)
        f = fl.possible(st, t, 8)
        if all(lo > 0 for lo, hi in f):
            return True
        for n in st.facts:
            if n[0] == "ncmp" and n[1] == s and n[2] == k and n[3] <= o < n[3] + n[4] and fl.possible(st, n, 32) == ((0, 0),):
                return True
        return False

    def ok(self, fl, st, s, x):
        """may the byte at this position be read?"""
        k, o = key(x), x[1] - self.encoff(s, x)
        if not self.valid(fl, st, s, k):
            return False
        if o < 0:
            return len(k) == 1 and self.low(fl, st, k[0][0]) >= -o
        return all(self.nonzero(fl, st, s, k, j) for j in range(0, min(o, 40))) and o < 40

    def low(self, fl, st, t):
        """a lower bound of a position"""
        while t[0] in ("sext", "zext", "trunc"):
            t = t[2]
        f = st.facts.get(("low", t))
        return f[0][0] if f else 0

    def below(self, fl, st, a, s, x):
        """a pointer before a known position: compared with a readable one before?"""
        k, o = key(x), x[1] - self.encoff(s, x)
        if o >= 0 or not self.upper(fl, st, s, k):
            return False
        return self.lower(fl, st, a)

    def upper(self, fl, st, s, k):
        return self.valid(fl, st, s, k)

    def lower(self, fl, st, a):
        for f in list(st.facts):
            if f[0] == "icmp" and f[1][0] == "u" and a in (f[2], f[3]):
                b = f[3] if f[2] == a else f[2]
                sb = self.split(fl, b)
                if sb is None or not (sb[1][1] >= 0 and self.valid(fl, st, sb[0], key(sb[1]))):
                    continue
                if fl.decide(st, fl.mk_icmp("uge", a, b, 64)) is True:
                    return True
        return False

    # -- positions
    def posok(self, fl, st, v):
        """is v a position between the start and the terminating zero of the input of this session?"""
        x = lin.lf(fl, v)
        s = self.mystr(fl, st)
        return self.ok(fl, st, s, x)

    def mystr(self, fl, st):
        for b in sorted(self.bases, key=repr):
            return self.strof(fl, st, b)
        return ("str", ("a", 0))

    def strof(self, fl, st, b):
        v = st.mem.get(fl.mk_add(b, self.off["str_"]))
        return v if v is not None else ("str", b)

    def load(self, fl, st, ins, a, f):
        for b in self.bases:
            if a == fl.mk_add(b, self.off["str_"]):
                return ("val", self.strof(fl, st, b))
        if self.isfield(fl, a, "pos_"):
            t = st.mem.get(a)
            if t is None:
                t = ("pv" if st.p[1] else "pd", fl.fresh(st, ins))
                fl.wd[t] = 32
                st.mem[a] = t
                st.facts[t] = POS
            return ("val", t)
        if self.isfield(fl, a, "result_") and st.mem.get(a) is not None:
            return ("val", st.mem[a])
        if ins.get("t") == "i32" and (str(f).endswith("Substitution::start_pos") or fl.root(a)[0] == "vec" or self.elem(fl, a)):
            t = ("pv", fl.fresh(st, ins))
            fl.wd[t] = 32
            st.facts[t] = POS
            return ("val", t)
        if ins.get("t") != "i8":
            return None
        s = self.split(fl, a)
        if s is None:
            return None
        self.ctx.count("reads of the input")
        if not (self.ok(fl, st, *s) or self.below(fl, st, a, *s)):
            x = s[1]
            why = "after a failure, before the position was restored" if any(mentions(t, "pd") or "pd" in repr(t) for t in x[0]) else \
                "%d byte%s behind a position without knowing that the bytes before are not zero" % (x[1], "s" if x[1] != 1 else "") if x[1] > 0 else \
                "before a known position" if x[1] < 0 else "at an unknown position"
            self.report(st, ins, "reads the input " + why)
        if st.p[0] == 3:
            st.p = (0,) + st.p[1:]
        t = ("ch", s[0], key(s[1]), s[1][1] - self.encoff(*s))
        fl.wd[t] = 8
        return ("val", t)

    def elem(self, fl, a):
        r = fl.root(a)
        return r[0] in ("i", "o") and len(r) > 1 and self.fn.ins.get(r[1]) is not None and \
            re.search(r"std::vector<int.*>::(operator\[\]|at|back|front)$", self.fn.ins[r[1]].callee or "") is not None

    def store(self, fl, st, ins, a, v, f):
        if self.isfield(fl, a, "result_"):
            return Fail.store(self, fl, st, ins, a, v, f)
        if self.isfield(fl, a, "pos_"):
            self.ctx.count("assignments to the position")
            ok = self.posok(fl, st, v)
            if not ok and st.p[0] != 1:
                self.report(st, ins, "may set the position behind the terminating zero or before the input")
            st.p = st.p[:1] + (ok,) + st.p[2:]
        return None

    def edge(self, fl, st, src, dst):
        Fail.edge(self, fl, st, src, dst)
        if (src, dst) in fl.back and st.p[1]:
            for b in self.bases:            # a readable position, whichever
                self.rebase(fl, st, fl.mk_add(b, self.off["pos_"]), dst)
        for i in self.fn.blocks[dst]:
            if i.op != "phi":
                break
            if i.get("t") not in ("ptr", "i32"):
                continue
            for v, b in i.get("in"):
                if b != src or isinstance(v, dict) and "u" in v:
                    continue
                t = fl.val(st, v)
                if i.get("t") == "ptr":
                    s = self.split(fl, t)
                    if s is None:
                        if i.id in self.phiin:
                            self.phibad[i.id] = (i.where(), "is not in the input")
                        continue
                    self.phiin.add(i.id)
                    if not (self.ok(fl, st, *s) or s[1][1] < 0 and self.upper(fl, st, s[0], key(s[1]))):
                        self.phibad[i.id] = (i.where(), "can leave the input")
                    if s[1][1] < 0:
                        self.phineg.add(i.id)
        return

    phineg = set()

    def behind(self, fl, st, t):
        """how many bytes are known not to be zero from a position on"""
        s = self.mystr(fl, st)
        x = lin.lf(fl, t)
        n = 0
        while n < 3 and self.ok(fl, st, s, (x[0], x[1] + n + 1)):
            n += 1
        return n

    def known(self, fl, st, y, n):
        st.facts[y] = POS
        fl.wd[y] = 32
        s = self.mystr(fl, st)
        k = ((y, 1),)
        for j in range(n):
            st.facts[("ch", s, k, j)] = ((1, 255),)
            fl.wd[("ch", s, k, j)] = 8

    def named(self, fl, st, t, y):
        n = self.behind(fl, st, t)
        fl.retire(st, y)
        self.known(fl, st, y, n)
        return y

    def normal(self, fl, st, b):
        if st.p[1]:
            for x in self.bases:
                self.rebase(fl, st, fl.mk_add(x, self.off["pos_"]), b)

    def there(self, fl, st, x):
        """the position, if x is a readable one or a pointer to one"""
        if self.posok(fl, st, x):
            return x
        s = self.split(fl, x)
        if s is not None and s[0][0] == "str" and s[1][0] and self.ok(fl, st, *s):
            return self.term(fl, s[1])
        return None

    def term(self, fl, x):
        r = None
        for t, c in x[0].items():
            if c != 1 or r is not None:
                return ("c", -1)
            r = t
        return fl.mk_add(r, x[1])

    def rebase(self, fl, st, a, dst):
        """from here on the position has a name of its own; express the bytes that were read relative to it"""
        v = st.mem.get(a)
        if v is None or v == ("pv", ("h", dst)):
            return
        del st.mem[a]
        k, c = lin.lf(fl, v)
        if len(k) != 1:
            return
        atom, n = next(iter(k.items()))
        while atom[0] in ("sext", "zext", "trunc"):
            atom = atom[2]
        if n != 1 or atom[0] != "pv" or not mentions(v, atom):
            return
        new = ("pv", ("new", dst))
        low = min(self.low(fl, st, atom) + c, 3)

        def base(x):
            while x[0] in ("sext", "zext", "trunc"):
                x = x[2]
            return x

        def re_(t):
            if not isinstance(t, tuple) or not mentions(t, atom):
                return t
            if t == atom:
                return fl.mk_add(new, -c)
            if t[0] in ("ch", "ncmp") and len(t[2]) == 1 and base(t[2][0][0]) == atom and t[2][0][1] == 1:
                o = t[3] - c
                if o < 0:
                    return None
                y = t[:1] + (t[1], subst(t[2], {atom: new}), o) + t[4:]
                for n in (new, ("pv", ("h", dst))):
                    fl.wd[subst(y, {new: n})] = fl.wd.get(t, 64)
                return y
            if t[0] == "+" and t[1] == atom:
                return fl.mk_add(new, t[2] - c)
            if t[0] == "idx" and t[3] == ((atom, 1),):
                return ("idx", t[1], t[2] - c, ((new, 1),))
            out = []
            for x in t:
                y = re_(x) if isinstance(x, tuple) else x
                if y is None:
                    return None
                out.append(y)
            return tuple(out)

        ok = {}
        for m in (st.env, st.mem):
            for x in m.values():
                if mentions(x, atom):
                    y = self.there(fl, st, x)
                    if y is not None:
                        ok[x] = y
        for m, tag in ((st.env, "j"), (st.mem, "m")):
            for x, t in list(m.items()):
                if not mentions(t, atom):
                    continue
                y = re_(t)
                if y is not None and (t not in ok or lin.lf(fl, y)[1] >= -3):
                    m[x] = y
                elif t in ok:
                    u, y = ok[t], ("pv", ("r" + tag, x, dst))
                    y = self.named(fl, st, u, y)
                    m[x] = y if u == t else ("idx", self.split(fl, t)[0], 0, ((y, 1),))
                elif tag == "m":
                    del m[x]
                else:
                    m[x] = ("w", dst, x)
                if x in m:
                    fl.wd[m[x]] = fl.wd.get(t, 64)
        for m in (st.facts, st.kb):
            for t, f in list(m.items()):
                if mentions(t, atom):
                    del m[t]
                    if t[0] == "low":
                        continue
                    y = re_(t)
                    if y is not None:
                        m[y] = f
                        fl.wd[y] = fl.wd.get(t, 64)
        st.mem[a] = new
        st.facts[new] = POS
        fl.wd[new] = 32
        if low > 0:
            st.facts[("low", new)] = ((low, low),)
            fl.wd[("low", new)] = 32
        # the final name
        if new != ("pv", ("h", dst)):
            h = ("pv", ("h", dst))
            for m, tag in ((st.env, "j"), (st.mem, "m")):
                for x, t in list(m.items()):
                    if mentions(t, h) and self.posok(fl, st, t):
                        m[x] = self.named(fl, st, t, ("pv", ("r" + tag, x, dst)))
            fl.retire(st, h)
            for m in (st.env, st.mem):
                for x, t in list(m.items()):
                    if mentions(t, new):
                        m[x] = subst(t, {new: h})
                        fl.wd[m[x]] = fl.wd.get(t, 64)
            for m in (st.facts, st.kb):
                for t, f in list(m.items()):
                    if mentions(t, new):
                        del m[t]
                        u = subst(t, {new: h})
                        m[u] = f
                        fl.wd[u] = fl.wd.get(t, 64)

    def merged(self, fl, st):
        """a position whose readability is known, but no longer why"""
        r = False
        if st.p[1]:
            for b in self.bases:
                a = fl.mk_add(b, self.off["pos_"])
                v = st.mem.get(a)
                if v is not None and not self.posok(fl, st, v):
                    del st.mem[a]
                    r = True
        return r

    def joinname(self, b, k):
        return ("pv", ("j", k, b))

    def joined(self, fl, b, k, a, v, c, v2):
        """readable positions have that in common"""
        i = self.fn.ins.get(k)
        if i is None or i.get("t") not in ("i32", "ptr") or "c" in (v[0], v2[0]):
            return None
        x, x2 = self.there(fl, a, v), self.there(fl, c, v2)
        if x is None or x2 is None or (x == v) != (i.get("t") == "i32") or (x2 == v2) != (i.get("t") == "i32"):
            return None
        t = self.joinname(b, k)
        n = min(self.behind(fl, a, x), self.behind(fl, c, x2))
        if x != t:
            self.known(fl, a, t, n)
        if x2 != t:
            self.known(fl, c, t, n)
        return t if x == v else ("idx", self.split(fl, v)[0], 0, ((t, 1),))

    def settle(self, fl, st, ins):
        if st.p[0] == 2:
            st.p = (3,) + st.p[1:]

    def call(self, fl, st, ins, args):
        c = ins.callee or "indirect"
        if c == S + "decode_encoding":
            self.settle(fl, st, ins)
            s = self.split(fl, args[1])
            if s is None or not self.ok(fl, st, *s):
                self.report(st, ins, "starts a nested session at a place that may be outside the input")
                s = s or (("str", None), ({}, 0))
            self.ctx.count("positions kept")
            ok = st.copy()
            fl.clobber(ok, ins, args)
            t = ("enc", fl.fresh(ok, ins), ((s[0], key(s[1])), s[1][1]))
            fl.wd[t] = 32
            ok.facts[t] = POS
            fl.clobber(st, ins, args)
            st.p = (1, False) + st.p[2:]
            return [(ok, t), (st, IMIN)]
        if not c.startswith(S + "decode_"):
            for k, a in enumerate(args):
                s = self.split(fl, a) if a[0] not in ("c", "g", "al") and not (a[0] == "a") else None
                if s is None and a in self.inputs:
                    s = (a, ({}, 0))
                if s is not None and self.isptr(ins, k) and not self.ok(fl, st, *s):
                    self.report(st, ins, "gives %s a pointer that may be outside the input" % re.sub(r"<.*>|\(.*", "", c))
        r = Fail.call(self, fl, st, ins, args)
        return r

    def isptr(self, ins, k):
        return True

    def other(self, fl, st, ins, args, c):
        if c in ("strncmp", "std::strncmp", "memcmp") and args[2][0] == "c":
            for p, q in ((args[0], args[1]), (args[1], args[0])):
                s = self.split(fl, p)
                t = strings(self.prog).get(q[1]) if q[0] == "g" else None
                if s is not None and t is not None:
                    n = min(args[2][1], len(t))
                    if c == "memcmp" and not all(self.nonzero(fl, st, s[0], key(s[1]), s[1][1] + j) for j in range(args[2][1] - 1)):
                        self.report(st, ins, "compares bytes that may be behind the input")
                    v = ("ncmp", s[0], key(s[1]), s[1][1] - self.encoff(*s), n)
                    fl.wd[v] = 32
                    return ("val", v)
        m = re.search(r"::add_(substitution|qualifier_start)$", c)
        if m:
            self.ctx.count("positions kept")
            i = 1 if m.group(1) == "substitution" else 2
            if not self.posok(fl, st, args[i]):
                self.report(st, ins, "keeps a position that may be outside the input (%s)" % c.split("::")[-1])
            if m.group(1) == "qualifier_start" and len(args) == 5 and "cv_qualifier_nt" in (ins.get("callee_dem") or self.dem(ins)):
                x = lin.lf(fl, args[2])
                s = self.mystr(fl, st)
                hi = max((b for a, b in fl.possible(st, args[3], 32)), default=0)
                for j in (1, 2):
                    if hi > j and not self.ok(fl, st, s, (x[0], x[1] + j)):
                        self.report(st, ins, "counts more cv-qualifiers than were read")
            return ("pure",)
        if re.search(r"std::vector<int.*>::(push_back|emplace_back|insert)$", c):
            self.ctx.count("positions kept")
            a = args[-1]
            v = st.mem.get(a)
            if self.isfield(fl, a, "pos_") and v is None:
                if not st.p[1]:
                    self.report(st, ins, "keeps a position after a failure")
            elif v is None or not self.posok(fl, st, v):
                self.report(st, ins, "keeps a position that may be outside the input")
            return ("pure",)
        if re.search(r"std::vector<.*Substitution.*>::(push_back|emplace_back)$", c):
            self.ctx.count("positions kept")
            v = st.mem.get(fl.mk_add(args[-1], self.prog.offset(NS + "Substitution", "start_pos")))
            if v is None or not self.posok(fl, st, v):
                self.report(st, ins, "keeps a position that may be outside the input")
            return ("pure",)
        if c == "strlen":
            t = ("len", args[0])
            fl.wd[t] = 64
            return ("val", t)
        return None

    def dem(self, ins):
        f = self.prog.fns.get(ins.get("callee"))
        return f.dem if f is not None else str(ins.get("callee"))

    def ret(self, fl, st, ins, v):
        self.settle(fl, st, ins)
        if self.fn.base.endswith("::decode_encoding"):
            s = fl.possible(st, v, 32)
            if s and all(lo >= 1 << 31 for lo, hi in s):
                return
            if not self.posok(fl, st, v):
                self.report(st, ins, "returns a position that may be outside the input")
            return
        if v is not None and self.fn.base.startswith(S + "decode_") and fl.possible(st, v, 8) != ((0, 0),) and not st.p[1]:
            self.report(st, ins, "returns success with the position outside the input")

    def finish(self):
        for i, (w, m) in self.phibad.items():
            if i in self.assumed:
                self.bad.setdefault("moves a pointer that %s" % m, (w, []))


def run(ctx):
    prog = program([r"session<std::allocator<char>>::(decode_|add_substitution)", r"^libcwd::_private_::demangle_(symbol|type)$"],
                   [r"^libcwd::_private_::demangle_(type|symbol)$"])
    todo = [f for f in prog.fns.values() if f.base.startswith(S + "decode_") and not f.base.endswith(("::decode_type", "::decode_class_enum_type"))]
    todo += [prog.one(S + "add_substitution")]
    todo += [prog.one("libcwd::_private_::demangle_" + x) for x in ("symbol", "type")]
    for fn in sorted(todo, key=lambda f: f.dem):
        ctx.analysed(fn)
        ctx.count("functions")
        member = fn.base.startswith(S) and not fn.base.endswith("::decode_encoding")
        inputs = [] if member else [("a", 1)] if fn.base.endswith("::decode_encoding") else [("a", 0)]
        r = Cur(prog, ctx, fn, [("a", 0)] if member else (), inputs)
        if fn.base.endswith("::add_substitution"):
            r.argpos = {("a", 1)}
        analyse(fn, r, 400000)
        r.finish()
        for msg, (w, p) in r.bad.items():
            ctx.violation("read|%s|%s" % (fn.base, msg), "%s %s" % (fn.base.replace(S, ""), msg), w, p)
        if not r.bad:
            ctx.ok("%s stays inside the input" % fn.base.replace(S, ""))
