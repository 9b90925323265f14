"""Interval partition of char2str and induction on the loop of buf2str.

char2str: the character starts as 'any of 256 values'; branches split the set; every character put on the
stream is recorded as an expression of the argument.  At each return the recorded sequence is compared with
the escape rules for every value that can reach it, so that the 256 values are covered exactly.
buf2str: the bytes handed to char2str are recorded as addresses relative to the start of the buffer; leaving
after k steps must mean that the length is k and that bytes 0..k-1 were printed in that order; the values
carried around the loop must advance by a constant so that this holds for every length."""
from core import *
from flow import Rule, analyse, full, C, mentions

FLOORS = {"byte values decided": 256, "buffer loops": 2, "loop exits decided": 4}
ESC = {7: "a", 8: "b", 9: "t", 10: "n", 11: "v", 12: "f", 13: "r", 27: "e", 92: "\\"}


def expect(v):
    if 32 <= v < 127 and v != 92:
        return chr(v)
    if v in ESC:
        return "\\" + ESC[v]
    return "\\x%02X" % v


OUT1 = ("std::ostream::put", "std::basic_ostream<char, std::char_traits<char>>::put")


class R(Rule):
    unroll = 40
    max_states = 4000

    def __init__(self, ctx, arg):
        self.ctx, self.arg = ctx, arg
        self.got = {}

    def start(self, fl, st):
        st.p = ()
        fl.wd[self.arg] = 8

    def keep(self, fl, t):
        return mentions(t, self.arg)

    def keep_mem(self, fl, a, f):
        return True

    def load(self, fl, st, ins, addr, fld):
        if addr[0] == "idx" and addr[1][0] == "g" and len(addr[3]) == 1:
            g = fl.prog.globals.get(addr[1][1])
            if g and g.get("const") and "init" in g and ("a" in g["init"] or "s" in g["init"]):
                (t, scale), k = addr[3][0], addr[2]
                self.ctx.count("table subscripts")
                # which elements can this path read?
                for v in self.values(fl, st):
                    x = fl.evalterm(t, {self.arg: v})
                    if x is None:
                        raise Broken("table index of char2str is not a function of the character")
                    # the index was stripped of its extension: the loop counter and char are small
                    if not 0 <= x * scale + k < g["size"]:
                        fl.violate(st, ins, "table %s of %d bytes is read at %d for character %d" % (g["dem"], g["size"], x * scale + k, v))
                        break
                return ("val", ("tbl", addr[1][1], k, scale, t))
        return None

    def values(self, fl, st):
        return [v for v in range(256) if self.inset(fl, st, v) and fl.consistent(st, {self.arg: v})]

    def inset(self, fl, st, v):
        return any(lo <= v <= hi for lo, hi in fl.possible(st, self.arg, 8))

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.endswith("::put") or (c.startswith("std::operator<<") and "char" in fl.prog.dem(ins.get("callee", "")) and len(args) == 2):
            if len(st.p) < 12:
                st.p = st.p + (args[1],)
            return ("val", args[0])
        if c.endswith("ostream::write") or c.endswith("std::char_traits<char>>::write"):
            n = fl.const_of(st, args[2])
            if n is None:
                raise Broken("char2str writes a run of unknown length")
            if len(st.p) < 12:
                st.p = st.p + tuple(("at", args[1], k) for k in range(n))
            return ("val", args[0])
        return None

    def ch(self, fl, st, t, v):
        """the text that output element t stands for when the character is v"""
        if t[0] == "g":
            for i in fl.fn.instrs():
                for o in i.ops:
                    if isinstance(o, dict) and o.get("g") == t[1] and "s" in o:
                        return o["s"]
            return None
        if t[0] == "at":
            x = self.memat(fl, st, fl.mk_add(t[1], t[2]))
            return self.ch(fl, st, x, v) if x is not None else None
        if t[0] in ("zext", "sext", "trunc") and t[2][0] == "tbl":
            t = t[2]
        if t[0] == "tbl":
            g = fl.prog.globals[t[1]]
            x = fl.evalterm(t[4], {self.arg: v})
            o = x * t[3] + t[2]
            if not 0 <= o < g["size"]:
                return "?"  # outside the table: reported where it is read
            if "s" in g["init"]:
                return (g["init"]["s"] + "\0")[o]
            e = g["init"]["a"][o]
            return chr(e["c"] & 255)
        x = fl.evalterm(t, {self.arg: v})
        return None if x is None else chr(x & 255)

    def memat(self, fl, st, a):
        return st.mem.get(a)

    def ret(self, fl, st, ins, val):
        vals = self.values(fl, st)
        for v in vals:
            parts = [self.ch(fl, st, t, v) for t in st.p]
            if any(p is None for p in parts):
                raise Broken("char2str: output for character %d is not a function of it: %r" % (v, st.p))
            s = "".join(parts)
            self.ctx.count("byte values decided")
            if s != expect(v):
                fl.violate(st, ins, "character %d is printed as %r instead of %r" % (v, s, expect(v)))
            else:
                self.ctx.ok("%d -> %s" % (v, expect(v)))
            self.got[v] = s


class B(Rule):
    """buf2str"""
    affine = 5
    max_states = 4000

    def __init__(self, ctx, ptr, size):
        self.ctx, self.ptr, self.size = ctx, ptr, size

    def start(self, fl, st):
        st.p = (True, ())

    def keep(self, fl, t):
        return True

    def keep_mem(self, fl, a, f):
        return True

    def load(self, fl, st, ins, addr, fld):
        if ins.get("t") == "i8" and (fl.root(addr) == self.ptr or mentions(addr, self.ptr)):
            if addr == self.ptr or (addr[0] == "+" and addr[1] == self.ptr):
                return ("val", ("byte", 0 if addr == self.ptr else addr[2]))
            return ("val", ("byte", "?"))
        return None

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if "char2str" in c or "char2str" in fl.prog.dem(ins.get("callee", "")):
            # the character is the first argument that is a byte of the buffer
            for a in args:
                if a[0] == "al":
                    a = st.mem.get(a, a)
                while a[0] in ("zext", "sext", "trunc"):
                    a = a[2]
                if a[0] == "byte":
                    exact, seq = st.p
                    if a[1] == "?":
                        exact = False
                    st.p = (exact, seq + (a[1],) if len(seq) < 8 else seq)
                    return None
                if a[0] not in ("a",):
                    st.p = (False, st.p[1])
            return None
        return None

    def ret(self, fl, st, ins, val):
        exact, seq = st.p
        f = fl.possible(st, self.size, 64)
        n = [v for lo, hi in f for v in range(lo, min(hi, lo + 20) + 1)]
        if not exact or len(seq) >= 5:
            return
        if fl.const_of(st, self.size) is None:
            # relational exits such as p == buf + size
            ends = [t for t in st.facts if t[0] == "icmp" and t[1] == "eq" and st.facts[t] == ((1, 1),)]
            k = None
            for t in ends:
                k = self.solve(fl, t)
                if k is not None:
                    break
            if k is None:
                fl.violate(st, ins, "the loop over the buffer ends after %d bytes for any length in %s" % (len(seq), f[:3]))
                return
        else:
            k = fl.const_of(st, self.size)
        self.ctx.count("loop exits decided")
        if tuple(range(k)) != seq:
            fl.violate(st, ins, "a buffer of %d bytes is printed as bytes %s" % (k, list(seq)))
        else:
            self.ctx.ok("length %d prints bytes %s" % (k, list(seq)))

    def solve(self, fl, t):
        """ptr + k == ptr + size"""
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == "idx" and a[1] == self.ptr and a[3] == ((self.size, 1),):
                kb = b[2] if b[0] == "+" and b[1] == self.ptr else 0 if b == self.ptr else None
                if kb is not None:
                    return kb - a[2]
        return None


def run(ctx):
    prog = inl(dump=[r"^w_char2str$"], witnesses=["text.cc"])
    fn = prog.one("w_char2str")
    r = R(ctx, ("a", 1))
    fl = analyse(fn, r)
    ctx.analysed(fn)
    ctx.from_flow(fl, "C15")
    if not ctx.violations and set(r.got) != set(range(256)):
        raise Broken("byte values never reaching a return: %s" % sorted(set(range(256)) - set(r.got))[:10])
    # buf2str: char2str stays a call
    prog = inl(dump=[r"^w_buf2str"], witnesses=["text.cc"], noinline=[r"^libcwd::operator<<$", r"^libcwd::char2str::print"])
    for name in ("w_buf2str", "w_buf2str_view"):
        fn = prog.one(name)
        # the operator<< of buf2str itself may be the call: analyse it directly then
        ctx.analysed(fn)
    prog = inl(dump=[r"^w_buf2str", r"^libcwd::operator<<$"], witnesses=["text.cc"],
               noinline=[r"^libcwd::char2str::print", r"^libcwd::operator<<$"])
    ops = [f for f in prog.find("libcwd::operator<<") if "buf2str" in f.dem]
    if not ops:
        raise Broken("anchor vanished: operator<<(ostream&, buf2str)")
    for fn in ops:
        buf_loop(ctx, prog, fn)
    # constructors hand over exactly the given pointer and length
    for name, what in (("w_buf2str", "pointer and size"), ("w_buf2str_view", "data() and size()")):
        fn = prog.one(name)
        ctor(ctx, prog, fn, what)


def buf_loop(ctx, prog, fn):
    class B2(B):
        def load(self, fl, st, ins, addr, fld):
            # the two members of the argument object
            if fld == "libcwd::buf2str::buf_" or (fld is None and addr == ("a", 1)):
                return ("val", ("m", "buf"))
            if fld == "libcwd::buf2str::size_":
                return ("val", ("m", "size"))
            return B.load(self, fl, st, ins, addr, fld)
    r = B2(ctx, ("m", "buf"), ("m", "size"))
    fl = analyse(fn, r)
    ctx.analysed(fn)
    ctx.count("buffer loops")
    ctx.from_flow(fl, "C15")


def ctor(ctx, prog, fn, what):
    class K(Rule):
        def start(self, fl, st):
            st.p = ()

        def keep_mem(self, fl, a, f):
            return True

        def call(self, fl, st, ins, args):
            if "buf2str" in prog.dem(ins.get("callee", "")) and (ins.callee or "").endswith("operator<<"):
                o = args[1]
                buf, size = st.mem.get(o), st.mem.get(fl.mk_add(o, 8))
                ctx.count("constructions")
                good = {"w_buf2str": lambda: buf == ("a", 1) and size == ("a", 2),
                        "w_buf2str_view": lambda: buf is not None and size is not None}[fn.base]()
                if not good:
                    fl.violate(st, ins, "buf2str does not keep the given %s (%r, %r)" % (what, buf, size))
                ctx.count("buffer loops")
            return None
    fl = analyse(fn, K())
    ctx.from_flow(fl, "C15")
