"""A failure to demangle is never lost, and then the input is what is produced.

Typestate of a decoding session, followed along every path of every decoding function (each call of another decoding function
is taken both ways: as success, and as failure with result_ false): after a failure, result_ becomes true again only by
returning to a position saved before the failure; a function returns true exactly when no failure is pending, and leaves result_
as it returns; decode_encoding returns a position only without a pending failure.  The functions that are called from
outside end, on every path with a failure, by making the output the input; without it only after the byte at the
position that was reached was found to be the terminating zero."""
from core import *
from demangle import *
from flow import mentions

FLOORS = {"decoding functions": 15, "decode calls": 30, "returns": 40, "outside functions": 4}
TECHNIQUE = "typestate of the failure flag over all paths of the decoding functions, and must-analysis of the output in their callers"
IMIN = C(-(1 << 31) & 0xffffffff)
POS = ((0, 1 << 30),)


def flags(fn):
    """phis that say where control came from, or whether another value is there: with an undefined input, or switched on"""
    out = set()
    work = []
    for i in fn.instrs():
        if i.op == "phi" and any(isinstance(v, dict) and "u" in v for v, x in i.get("in")):
            out.add(i.id)
        if i.op == "switch" and isinstance(i.get("cond"), int):
            d = fn.defi(i.get("cond"))
            if d is not None and d.op == "phi":
                work.append(d)
    while work:
        d = work.pop()
        if d.id in out:
            continue
        out.add(d.id)
        for v, b in d.get("in"):
            x = fn.defi(v) if isinstance(v, int) else None
            if x is not None and x.op == "phi":
                work.append(x)
    return out


class Fail(Rule):
    """p = (pending failure: 0 no, 1 yes, 2 cleared but position not yet checked,
    3 cleared and nothing tried since; is the position one from before the failure?; ...)"""
    max_states = 60
    unroll = 1
    same_base = True

    def __init__(self, prog, ctx, fn, bases):
        self.prog, self.ctx, self.fn = prog, ctx, fn
        self.off = {m: prog.offset(S[:-2], m) for m in ("str_", "pos_", "maxpos_", "result_")}
        self.bases = set(bases)
        self.dirty = set()
        self.bad = {}
        self.flags = flags(fn)

    def start(self, fl, st):
        st.p = (0, True, frozenset())
        for b in self.bases:
            st.mem[fl.mk_add(b, self.off["result_"])] = C(1)

    def derived(self, k):
        """the values computed from a phi"""
        if not hasattr(self, "_derived"):
            self._derived = {}
        r = self._derived.get(k)
        if r is None:
            r = self._derived[k] = {k}
            for _ in range(3):
                r |= {i.id for i in self.fn.instrs() if i.op in ("add", "sub", "zext", "sext", "trunc") and
                      any(isinstance(v, int) and v in r for v in i.ops)}
        return r

    def edge(self, fl, st, src, dst):
        """keep apart what reaches a block with and without a value (and the flag that says which)"""
        got = None
        for i in self.fn.blocks[dst]:
            if i.op != "phi":
                break
            if i.id not in self.flags:
                continue
            for v, b in i.get("in"):
                if b == src:
                    got = {x for x in (got if got is not None else st.p[2]) if x[0] != i.id}
                    t = fl.val(st, v)
                    if t[0] == "c" or isinstance(v, dict):
                        got.add((i.id, "u" if isinstance(v, dict) and "u" in v else t[1]))
        live = fl.live_in[dst]
        if got is not None or st.p[2]:
            got = {x for x in (st.p[2] if got is None else got) if not live.isdisjoint(self.derived(x[0]))}
            st.p = st.p[:2] + (frozenset(got),) + st.p[3:]

    def keep(self, fl, t):
        return True

    def keep_mem(self, fl, a, f):
        return True

    def isfield(self, fl, a, m):
        return any(a == fl.mk_add(b, self.off[m]) for b in self.bases)

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), st.path()))

    def load(self, fl, st, ins, a, f):
        if self.isfield(fl, a, "pos_"):
            t = st.mem.get(a)
            if t is None:
                t = fl.fresh(st, ins)
                fl.wd[t] = 32
                st.mem[a] = t
                st.facts[t] = POS
                if not st.p[1]:
                    self.dirty.add(t)
                return ("val", t)
        if self.isfield(fl, a, "result_") and st.mem.get(a) is not None:
            return ("val", st.mem[a])
        if ins.get("t") == "i8" and st.p[0] == 3 and fl.root(a)[0] != "al" and not any(fl.root(a) == fl.root(b) for b in self.bases):
            st.p = (0,) + st.p[1:]          # the input is read again
        return self.load2(fl, st, ins, a, f)

    def load2(self, fl, st, ins, a, f):
        return None

    def store(self, fl, st, ins, a, v, f):
        if self.isfield(fl, a, "result_"):
            s = fl.possible(st, v, 8)
            if s == ((0, 0),):
                st.p = (1,) + st.p[1:]
            elif st.p[0] == 1:
                st.p = (2,) + st.p[1:]
        if self.isfield(fl, a, "pos_"):
            t = v
            while t[0] in ("+", "sext", "zext", "trunc"):
                t = t[1] if t[0] == "+" else t[2]
            st.p = st.p[:1] + (not any(mentions(t, d) for d in self.dirty),) + st.p[2:]
        return None

    def settle(self, fl, st, ins):
        """after clearing a failure the position must be one from before it"""
        if st.p[0] != 2:
            return
        if not st.p[1]:
            self.report(st, ins, "clears a failure without returning to a position saved before it")
        st.p = (3, True) + st.p[2:]

    def wipe(self, fl, st, ins, args):
        fl.clobber(st, ins, args)
        for b in self.bases:
            for m in ("pos_", "result_"):
                st.mem.pop(fl.mk_add(b, self.off[m]), None)

    def call(self, fl, st, ins, args):
        c = ins.callee or "indirect"
        if c.startswith(S + "decode_"):
            n = c[len(S):]
            if n == "decode_encoding":
                self.ctx.count("decode calls")
                self.settle(fl, st, ins)
                if st.p[0] == 3:
                    st.p = (0,) + st.p[1:]
                ok = st.copy()
                fl.clobber(ok, ins, args)
                t = fl.fresh(ok, ins)
                ok.facts[t] = POS
                ok.p = self.decoded(fl, ok, ok.p, None, t)
                fl.clobber(st, ins, args)
                st.p = self.decoded(fl, st, (1, False) + st.p[2:], None, None)
                return [(ok, t), (st, IMIN)]
            self.settle(fl, st, ins)
            if st.p[0] == 3:
                st.p = (0,) + st.p[1:]
            b = args[0]
            self.bases.add(b)
            self.ctx.count("decode calls")
            r = fl.mk_add(b, self.off["result_"])
            failed = st.p[0] == 1
            ok = st.copy()
            self.wipe(fl, ok, ins, args)
            ok.mem[r] = C(1)
            ok.p = self.decoded(fl, ok, ok.p, b, None)
            self.wipe(fl, st, ins, args)
            st.mem[r] = C(0)
            st.p = self.decoded(fl, st, (1, False) + st.p[2:], b, None)
            return [(st, C(0))] if failed else [(ok, C(1)), (st, C(0))]
        if re.search(r"::implementation_details::decode_real$|^indirect$", c):
            return ("pure",)
        r = self.other(fl, st, ins, args, c)
        if r is not None:
            return r
        if c.startswith(("std::", "operator ", NS, "libcwd::")):
            return ("pure",)
        return None

    def decoded(self, fl, st, p, base, cnt):
        return p

    def other(self, fl, st, ins, args, c):
        return None

    def ret(self, fl, st, ins, v):
        self.settle(fl, st, ins)
        self.ctx.count("returns")
        if v is None:
            return
        w = fl.w(v)
        if self.fn.base.endswith("::decode_encoding"):
            s = fl.possible(st, v, 32)
            neg = s and all(lo >= 1 << 31 for lo, hi in s)
            if st.p[0] and not neg:
                self.report(st, ins, "returns a position although decoding failed")
            return
        s = fl.possible(st, v, min(w, 8))
        res = st.mem.get(fl.mk_add(("a", 0), self.off["result_"]))
        if st.p[0] == 3 and s != ((0, 0),):
            self.report(st, ins, "forgets a failure: it can return success without trying anything else")
        elif st.p[0] and s != ((0, 0),):
            self.report(st, ins, "can return success after a failure")
        if res is not None and fl.possible(st, res, 8) != s and res != v:
            self.report(st, ins, "returns something else than result_ says")


def run(ctx):
    prog = program([r"session<std::allocator<char>>::decode_", r"^libcwd::(_private_::)?demangle_(symbol|type)$", r"^__gnu_cxx::demangle<.*>::(symbol|type)$"],
                   [r"^libcwd::_private_::demangle_(type|symbol)$"])
    for fn in sorted(prog.fns.values(), key=lambda f: f.dem):
        if not fn.base.startswith(S + "decode_") or fn.base.endswith(("::decode_type", "::decode_class_enum_type")):
            continue
        ctx.analysed(fn)
        ctx.count("decoding functions")
        static = fn.base.endswith("::decode_encoding")
        r = Fail(prog, ctx, fn, () if static else [("a", 0)])
        analyse(fn, r, 400000)
        for msg, (w, p) in r.bad.items():
            ctx.violation("lost|%s|%s" % (fn.base, msg), "%s %s" % (fn.base[len(S):], msg), w, p)
        if not r.bad:
            ctx.ok("%s: no failure is lost on any path" % fn.base[len(S):])
    for fn in prog.fns.values():
        if not fn.base.startswith(S + "decode_"):
            continue
        for i in fn.instrs():
            if i.op == "store" and i.get("fld") and re.search(r"::(str_|maxpos_)$", str(i.get("fld"))):
                raise Broken("%s modifies the input of the session" % fn.base)
    for name, sym in (("demangle_symbol", True), ("demangle_type", False)):
        fn = prog.one("libcwd::_private_::" + name)
        ctx.analysed(fn)
        ctx.count("outside functions")
        r = Outer(prog, ctx, fn, ())
        r.sym = sym
        analyse(fn, r, 400000)
        report(ctx, fn, r, "with every failure the output is the input; success only at the terminating zero")
        if not r.bad and (not r.nsucc or not r.nfail):
            raise Broken("%s: no path with %s" % (fn.base, "success" if not r.nsucc else "failure"))
    for name in ("demangle_symbol", "demangle_type"):
        fn = prog.one("libcwd::" + name)
        ctx.analysed(fn)
        ctx.count("outside functions")
        r = Wrapper(prog, "libcwd::_private_::" + name)
        fl = analyse(fn, r)
        r.judge(fl)
        report(ctx, fn, r, "appends exactly what _private_::%s produced" % name)


def report(ctx, fn, r, text):
    for msg, (w, p) in r.bad.items():
        ctx.violation("outside|%s|%s" % (fn.base, msg), "%s %s" % (fn.base, msg), w, p)
    if not r.bad:
        ctx.ok("%s: %s" % (fn.base, text))


class Outer(Fail):
    """p[3]: what was put in the output: ("none",), ("in",) the input, ("null",), ("dec",) decoded, ("text", t), ("glob",), ("?",)
    p[4]: the byte read at the position reached"""

    def __init__(self, *a):
        Fail.__init__(self, *a)
        self.nsucc = self.nfail = 0
        self.str = strings(self.prog)

    def start(self, fl, st):
        Fail.start(self, fl, st)
        st.p = st.p + (("none",), None, None)

    def wipe(self, fl, st, ins, args):
        keep = {}
        for b in self.bases:
            for m in ("str_", "maxpos_"):
                a = fl.mk_add(b, self.off[m])
                if a in st.mem:
                    keep[a] = st.mem[a]
        Fail.wipe(self, fl, st, ins, args)
        st.mem.update(keep)

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.startswith(S + "decode_"):
            if st.p[3][0] != "none" or st.p[3] == ("dec",):
                self.report(st, ins, "decodes into output that is not empty")
            if self.sym:
                if self.char(fl, st, 0) != ord("_") or self.char(fl, st, 1) != ord("Z"):
                    self.report(st, ins, "decodes a symbol that does not start with _Z")
                if not c.endswith("::decode_encoding") or args[0] != ("a", 1) or args[1] != ("+", ("a", 0), 2) or not (args[2][0] == "c" and args[2][1] >= 1 << 30):
                    self.report(st, ins, "does not decode the whole of the input behind _Z")
            elif args[1] != ("a", 1) or st.mem.get(fl.mk_add(args[0], self.off["str_"])) != ("a", 0) or st.mem.get(fl.mk_add(args[0], self.off["pos_"])) != C(0):
                self.report(st, ins, "does not decode the input from its start")
        return Fail.call(self, fl, st, ins, args)

    def set(self, st, v, what=None):
        st.p = st.p[:3] + (v,) + st.p[4:]

    def decoded(self, fl, st, p, base, cnt):
        return p[:3] + (("dec",), None, cnt)

    def load2(self, fl, st, ins, a, f):
        if ins.get("t") != "i8" or st.p[3] != ("dec",):
            return None
        x = lin.lf(fl, a)
        if x[0].get(("a", 0)) != 1:
            return None
        rest = {t: c for t, c in x[0].items() if t != ("a", 0)}
        if len(rest) != 1:
            return None
        t, c = next(iter(rest.items()))
        while t[0] in ("sext", "zext"):
            t = t[2]
        pos = [st.mem.get(fl.mk_add(b, self.off["pos_"])) for b in self.bases]
        k = x[1]
        if t == st.p[5]:
            k -= 2
        elif t not in pos:
            return None
        if c != 1 or k:
            return None
        v = fl.fresh(st, ins)
        fl.wd[v] = 8
        st.p = st.p[:4] + (v,) + st.p[5:]
        return ("val", v)

    def other(self, fl, st, ins, args, c):
        m = re.search(r"basic_string<.*>::(operator\+=|append|push_back|operator=|assign)$", c)
        if m and args[0] == ("a", 1):
            put = m.group(1) not in ("operator=", "assign")
            v = args[1]
            t = self.str.get(v[1]) if v[0] == "g" else None
            old = st.p[3]
            new = ("?",)
            n = args[2] if len(args) > 2 else None
            if t is not None and n is not None and n != C(len(t)):
                self.report(st, ins, "writes a wrong number of characters of '%s'" % t)
            if v == ("a", 0):
                if n is None or n == ("len", ("a", 0)):
                    if not put:
                        new = ("in",)
            elif t == "(null)" and old == ("none",):
                new = ("null",)
            elif t is not None and not put:
                new = ("text", t)
            elif v == ("+", ("a", 0), 11) and put and old[0] == "text":
                new = ("glob", old[1])
            elif put and v[0] == "al" and old == ("dec",):
                new = old
            self.set(st, new)
            return ("pure",)
        if c == "strlen":
            t = ("len", args[0])
            fl.wd[t] = 64
            return ("val", t)
        if c in ("strncmp", "std::strncmp"):
            return ("pure",)
        return None

    def char(self, fl, st, k):
        v = st.mem.get(fl.mk_add(("a", 0), k))
        if v is None:
            return None
        s = fl.possible(st, v, 8)
        return s[0][0] if len(s) == 1 and s[0][0] == s[0][1] else None

    def ret(self, fl, st, ins, v):
        self.ctx.count("returns")
        out = st.p[3]
        null = fl.possible(st, ("a", 0), 64)
        if out == ("null",):
            if null != ((0, 0),):
                self.report(st, ins, "produces '(null)' for an input")
            return
        if out == ("in",):
            self.nfail += 1
            return
        if st.p[0]:
            self.report(st, ins, "does not produce the input after a failure to decode")
            return
        if out == ("dec",):
            z = st.p[4]
            if z is None or fl.possible(st, z, 8) != ((0, 0),):
                self.report(st, ins, "reports success although the input may not have been consumed to its end")
            self.nsucc += 1
            return
        if out[0] == "glob":
            c = self.char(fl, st, 9)
            if c != ord({"global destructors keyed to ": "D", "global constructors keyed to ": "I"}.get(out[1], "?")):
                self.report(st, ins, "produces '%s' for another prefix" % out[1])
            return
        self.report(st, ins, "produces neither the input nor the demangled name")


class Wrapper(Sym):
    def __init__(self, prog, inner):
        Sym.__init__(self)
        self.inner, self.bad = inner, {}

    def known(self, fl, st, ins, args, c):
        if c == self.inner:
            self.event(st, "inner", tuple(args))
            return ("pure",)
        m = re.search(r"basic_string<.*>::(operator\+=|append|push_back|operator=|assign|insert|replace|clear|data|c_str|size|length|basic_string)$", c)
        if m:
            n = m.group(1)
            if n in ("data", "c_str", "size", "length"):
                t = ("data" if n in ("data", "c_str") else "size", args[0])
                fl.wd[t] = 64
                return ("val", t)
            self.event(st, n, tuple(args))
            return ("pure",)
        if c.startswith("std::"):
            return ("pure",)
        return None

    def judge(self, fl):
        for st, ins, v in self.rets:
            ev = [e for e in self.events(st) if e[0] in ("inner", "operator+=", "append", "push_back", "operator=", "assign", "insert", "replace", "clear")]
            ok = len(ev) == 2 and ev[0][0] == "inner" and ev[0][1][0] == ("a", 0) and ev[1][0] in ("operator+=", "append")
            if ok:
                x = ev[0][1][1]
                a = ev[1][1]
                ok = a[0] == ("a", 1) and (a[1:] == (x,) or a[1:] == (("data", x), ("size", x)) or a[1:] == (("data", x),))
            if not ok:
                self.bad.setdefault("does not append exactly the result", (ins.where(), st.path()))
