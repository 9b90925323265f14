"""How RcFile::process_channels() splits a list of masks, over positions in the text that stand for any text.

The strings of the function are slices of the original list, between symbolic positions: the start, the begin P(i) and the end
Q(i) of the i-th mask, anywhere (R(i)) between that and the next mask, and the end of the list."""
from core import *
from flow import Rule, analyse, C

STR = re.compile(r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::(.*)$")
NPOS = C((1 << 64) - 1)
Z, N = ("R", 0), ("N",)
MAXTOK = 3
DELIM = set(", \t\n\v")


class Skip(Exception):
    pass


def npos(t):
    return t[0] == "c" and t[1] in (-1, (1 << 64) - 1, (1 << 32) - 1)


def strip(t):
    while t[0] in ("trunc", "sext", "zext"):
        t = t[2]
    return t


class Split(Rule):
    merge = False
    max_states = 20000
    unroll = 12
    # p = (strings, masks found, ends known, no more masks, masks processed, indentation)

    def __init__(self, ctx, text, lst):
        self.ctx, self.text, self.list = ctx, text, lst
        self.bad, self.n, self.skip = {}, 0, None

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), st.path()))

    def keep(self, fl, t):
        return True

    def keep_mem(self, fl, a, f):
        return True

    def start(self, fl, st):
        st.p = (((self.list, (Z, N, False)),), 0, (), False, (), 0)

    def set(self, st, k, v):
        p = list(st.p)
        p[k] = v
        st.p = tuple(p)

    def get(self, st, a):
        return dict(st.p[0]).get(a)

    def put(self, st, a, s):
        d = dict(st.p[0])
        d[a] = s
        self.set(st, 0, tuple(sorted(d.items(), key=repr)))

    def off(self, fl, st, lo, pos):
        if lo == pos:
            return C(0)
        t = ("off", lo, pos)
        fl.wd[t] = 64
        fl.assume(st, fl.mk_icmp("ult", t, C(1 << 30), 64), True)
        fl.assume(st, fl.mk_icmp("ugt", t, C(0), 64), True)
        return t

    def where(self, lo, t):
        """the position that is t characters beyond lo"""
        t = strip(t)
        k = 0
        if t[0] == "+":
            t, k = strip(t[1]), t[2]
        if t[0] == "off" and t[1] == lo:
            p = t[2]
        elif t[0] == "c":
            p, k = lo, k + t[1]
        else:
            raise Skip("a position that is not relative to the text")
        if k == 0:
            return p
        if p[0] == "Q" and k == 1:
            return ("R", p[1])
        return ("?", p, k)

    def find(self, fl, st, ins, s, pos, which):
        lo, hi, up = s
        p = self.where(lo, pos)
        if p[0] == "?":
            self.report(st, ins, "continues at a position that may be inside or beyond the next mask")
            st.dead = True
            return None
        if which == "not":
            if p[0] == "P":
                return ("val", self.off(fl, st, lo, p))
            if hi != N or p[0] not in "RQ":
                raise Skip("a search from an unknown place")
            i = p[1] + 1
            if st.p[1] >= i:
                return ("val", self.off(fl, st, lo, ("P", i)))
            if st.p[3]:
                return ("val", NPOS)
            out = []
            a = st.copy()
            self.set(a, 3, True)
            out.append((a, NPOS))
            if i <= MAXTOK:
                b = st.copy()
                self.set(b, 1, i)
                if len(b.p[4]) < i - 1:
                    self.report(b, ins, "goes on to the next mask before it processed the previous one")
                out.append((b, self.off(fl, b, lo, ("P", i))))
            return out
        if p[0] == "Q":
            return ("val", self.off(fl, st, lo, p))
        if p[0] != "P":
            raise Skip("a search from an unknown place")
        i = p[1]
        if hi == ("Q", i):
            return ("val", NPOS)
        if hi != N:
            raise Skip("a search in an unknown string")
        if i in st.p[2]:
            return ("val", self.off(fl, st, lo, ("Q", i)))
        if st.p[3]:
            return ("val", NPOS)
        a, b = st.copy(), st.copy()
        self.set(a, 3, True)
        self.set(b, 2, b.p[2] + (i,))
        return [(a, NPOS), (b, self.off(fl, b, lo, ("Q", i)))]

    def call(self, fl, st, ins, args):
        if self.skip:
            st.dead = True
            return ("pure",)
        try:
            return self.event(fl, st, ins, ins.callee or "", args)
        except Skip as e:
            self.skip = "%s: %s" % (ins.where(), e)
            st.dead = True
            return ("pure",)

    def event(self, fl, st, ins, c, args):
        if c.startswith("llvm."):
            return ("pure",)
        if c.endswith(("::inc_indent", "::dec_indent")):
            k = args[1]
            if k[0] != "c":
                raise Skip("an unknown indentation")
            self.set(st, 5, st.p[5] + (k[1] if "inc_" in c else -k[1]))
            return ("pure",)
        if "DebugChannels::for_each<" in c:
            found = [(a, v) for a, v in st.mem.items() for r in args[1:] if fl.root(a) == fl.root(r) and self.get(st, v) is not None]
            found += [(a, a) for a in args[1:] if self.get(st, a) is not None]
            if len(found) != 1:
                raise Skip("what is done for every channel does not use one string")
            self.process(fl, st, ins, self.get(st, found[0][1]))
            return ("pure",)
        if c.startswith("std::transform<") or c.startswith("std::for_each<"):
            if args[0][0] == "it" and args[1][0] == "it" and args[0][1] == args[1][1] and args[0][2:] == ("b",) and args[1][2:] == ("e",) and \
                    (c.startswith("std::for_each<") or args[2] == args[0] and args[3] in (("g", "toupper"), ("f", "toupper"))) and self.get(st, args[0][1]):
                s = self.get(st, args[0][1])
                self.put(st, args[0][1], s[:2] + (True,))
            elif args[0][0] == "it" and self.get(st, args[0][1]):
                s = self.get(st, args[0][1])
                self.put(st, args[0][1], s[:2] + (False if c.startswith("std::transform<") and args[3] == ("f", "tolower") else None,))
            return ("pure",)
        m = STR.match(c)
        if not m:
            if any(self.get(st, a) is not None for a in args):
                raise Skip("a string is passed to " + c[:60])
            return None
        n = m.group(1)
        n = "ctor" if n.startswith("basic_string") else n.split("[")[0]
        if n.startswith("~"):
            return ("pure",)
        s = self.get(st, args[0])
        if n == "ctor" and len(args) == 2 or n == "operator=" and len(args) == 2:
            o = self.get(st, args[1])
            if o is None:
                raise Skip("an unknown string is copied")
            self.put(st, args[0], o)
            return ("val", args[0])
        if n == "ctor" and len(args) == 1:
            self.put(st, args[0], (Z, Z, False))
            return ("pure",)
        if n in ("ctor", "assign") and len(args) == 4 and self.get(st, args[1]):
            return self.sub(fl, st, ins, args[0], self.get(st, args[1]), args[2], args[3])
        if n == "substr":
            o = self.get(st, args[1])
            if o is None:
                raise Skip("an unknown string is copied")
            return self.sub(fl, st, ins, args[0], o, args[2], args[3])
        if s is None:
            raise Skip("an unknown string is used: " + n)
        lo, hi, up = s
        if n in ("find_first_not_of", "find_first_of") and len(args) == 3:
            if self.text(args[1]) is None or set(self.text(args[1])) != DELIM:
                if self.text(args[1]) is not None:
                    self.report(st, ins, "does not separate the masks by exactly a comma and white space")
                else:
                    raise Skip("an unknown set of characters")
            return self.find(fl, st, ins, s, args[2], "not" if "not" in n else "of")
        if n == "erase" and len(args) == 3:
            a, k = args[1], strip(args[2])
            if a == C(0) and not npos(k):
                self.put(st, args[0], (self.where(lo, k), hi, up))
            elif npos(k):
                self.put(st, args[0], (lo, self.where(lo, a), up))
            else:
                raise Skip("a part is erased in an unknown way")
            return ("val", args[0])
        if n in ("remove_prefix",):
            raise Skip(n)
        if n in ("length", "size", "empty"):
            if hi != N or lo[0] != "R":
                if lo == hi:
                    r = 0
                else:
                    r = 1
                return ("val", C(r if n != "empty" else 1 - r))
            if lo[1] < st.p[1]:
                return ("val", C(1 if n != "empty" else 0))
            # what is left may be nothing at all
            a, b = st.copy(), st.copy()
            self.set(a, 3, True)
            t = ("len", lo)
            fl.wd[t] = 64
            fl.assume(b, fl.mk_icmp("ugt", t, C(0), 64), True)
            if n == "empty":
                return [(a, C(1)), (b, C(0))]
            return [(a, C(0)), (b, t)]
        if n in ("operator[]", "at", "front", "back", "data"):
            self.put(st, args[0], (lo, hi, None))
            return None
        if n in ("begin", "end"):
            if not up:
                self.put(st, args[0], (lo, hi, None))       # what is done to its characters is not followed
            return ("val", ("it", args[0], n[0]))
        if n in ("c_str", "reserve"):
            return None
        raise Skip("an unknown use of a string: " + n)

    def sub(self, fl, st, ins, dst, s, a, k):
        lo, hi, up = s
        p = self.where(lo, a)
        k = strip(k)
        if npos(k) or k[0] == "al":         # an allocator: everything that follows
            q = hi
        elif k[0] == "op" and k[1] == "sub" and strip(k[3]) == strip(a):
            k = strip(k[2])
            q = hi if npos(k) else self.where(lo, k)
        elif k[0] == "off" and k[1] == p:
            q = k[2]
        elif a == C(0):
            q = self.where(lo, k)
        else:
            raise Skip("a part is taken in an unknown way")
        self.put(st, dst, (p, q, up))
        return ("pure",)

    def process(self, fl, st, ins, s):
        i = st.p[1]
        self.ctx.count("masks followed")
        if i == 0:
            self.report(st, ins, "processes a mask before it looked for one")
            return
        end = ("Q", i) if i in st.p[2] else N if st.p[3] else None
        if end is None or s[0] != ("P", i) or s[1] != end:
            self.report(st, ins, "processes something else than exactly one mask")
        if s[2] is False:
            self.report(st, ins, "processes a mask that was not converted to upper case")
        if i in st.p[4]:
            self.report(st, ins, "processes a mask more than once")
            st.dead = True
            return
        self.set(st, 4, st.p[4] + (i,))

    def ret(self, fl, st, ins, val):
        self.n += 1
        if not st.p[3]:
            self.report(st, ins, "returns although there may be more masks")
        if len(st.p[4]) < st.p[1]:
            self.report(st, ins, "returns without having processed the last mask")
        if st.p[5]:
            self.report(st, ins, "does not restore the indentation")


def run(ctx, strings):
    prog = inl(dump=[r"^libcwd::RcFile::"], noinline=[r"^std::__cxx11::basic_string", r"^std::(vector|map|transform|for_each)", "DebugObject", "Channel", "::instance$",
                                                    r"^libcwd::RcFile::(process_channel|read|unknown_keyword|determine_rcfile_name|set_all_channels_on|set_all_channels_off)$"])
    fs = [f for f in prog.fns.values() if f.base.split("[")[0] == "libcwd::RcFile::process_channels" and "$_" not in f.dem]
    if len(fs) != 1:
        raise Broken("anchor vanished: RcFile::process_channels")
    ctx.analysed(fs[0])
    tab = strings(prog)
    r = Split(ctx, lambda t: tab.get(t[1], "").split("\0")[0] if t[0] == "g" and t[1] in tab else None, ("a", 1))
    analyse(fs[0], r, 200000)
    if r.skip:
        ctx.ok("process_channels(): how the list is split is not judged: %s" % r.skip)
        return
    for m, (w, p) in r.bad.items():
        ctx.violation("process_channels()|" + m, "process_channels() %s" % m, w, p)
    if not r.bad:
        ctx.ok("process_channels(): %d paths" % r.n)


# ------------------------------------------------------------------ one line of the file
WS = set(" \t\n\v")
KEYS = ("silent", "gdb", "xterm", "channels_default", "channels_toggle", "channels_on", "channels_off")
ORDER = ("0", "A", "K", "E", "E1", "V", "B", "N")
C0 = ("C0",)


class Line(Split):
    """p = (strings, blank, has =, has value, lines, what the line was compared with)

    Positions in the line: 0, A the first character that is not white space, K the first after A that is white space or =, E the
    first =, E1 the next position, V the first after that which is not white space, B behind the last that is not, N the end."""

    def start(self, fl, st):
        st.p = ((), None, None, None, 0, None)
        fl.wd[C0] = 8

    def off(self, fl, st, lo, pos):
        lo, pos = ("A" if x == "0" and st.p[1] == "trimmed" else x for x in (lo, pos))
        return Split.off(self, fl, st, lo, pos)

    def where(self, lo, t):
        t = strip(t)
        k = 0
        if t[0] == "+":
            t, k = strip(t[1]), t[2]
        if t[0] == "off" and t[1] == lo:
            p = t[2]
        elif t[0] == "c" and not npos(t):
            p, k = lo, (k + t[1]) % (1 << 64)
        elif t[0] == "c" and not k:
            return ("?", lo, -1)
        elif t[0] == "c":
            p, k = lo, (k + t[1]) % (1 << 64)
        else:
            raise Skip("a position that is not relative to the line")
        while k:
            q = {("E", 1): "E1", ("B-", 1): "B", ("B", -1): "B-", ("E1", -1): "E"}.get((p, 1 if k > 0 else -1))
            if q is None:
                return ("?", p, k)
            p, k = q, k - (1 if k > 0 else -1)
        return p

    def fork(self, fl, st, k, yes, no):
        """yes and no: (value of component k, position or None, position that the string is relative to)"""
        out = []
        for v, lo, pos in (yes, no):
            s = st.copy()
            self.set(s, k, v)
            out.append((s, NPOS if pos is None else self.off(fl, s, lo, pos)))
        return out

    def search(self, fl, st, ins, s, chars, pos, kind):
        lo, hi, up = s
        if lo == hi:
            return ("val", NPOS)
        p = self.where(lo, pos) if kind != "last_not" else lo
        chars = set(chars)
        if not isinstance(p, str):
            self.report(st, ins, "continues at an unexpected place in the line %s" % (p,))
            st.dead = True
            return ("pure",)
        if kind == "not":
            if chars != WS:
                if p in ("0", "E1"):
                    self.report(st, ins, "takes something else than white space off the line")
                raise Skip("other characters")
            if p in ("A", "V", "K", "E", "B-"):
                if p == "K":
                    raise Skip("white space before the =")
                return ("val", self.off(fl, st, lo, p))
            if p == "0":
                if st.p[1] is None:
                    return self.fork(fl, st, 1, (False, lo, "A"), (True, lo, None))
                return ("val", NPOS if st.p[1] else self.off(fl, st, lo, "A"))
            if p == "E1":
                if st.p[3] is None:
                    return self.fork(fl, st, 3, (True, lo, "V"), (False, lo, None))
                return ("val", self.off(fl, st, lo, "V") if st.p[3] else NPOS)
            raise Skip("a search from an unknown place")
        if kind == "last_not":
            if chars != WS:
                self.report(st, ins, "takes something else than white space off the line")
            if hi not in ("B", "N"):
                raise Skip("a search in an unknown part %s %s" % (s, st.p[1:]))
            if lo == "0":
                if st.p[1] is None:
                    return self.fork(fl, st, 1, (False, lo, "B-"), (True, lo, None))
                return ("val", NPOS if st.p[1] else self.off(fl, st, lo, "B-"))
            if lo == "E1":
                if st.p[3] is None:
                    return self.fork(fl, st, 3, (True, lo, "B-"), (False, lo, None))
                return ("val", self.off(fl, st, lo, "B-") if st.p[3] else NPOS)
            if lo in ("A", "V", "E", "K"):
                return ("val", self.off(fl, st, lo, "B-"))
            raise Skip("a search in an unknown part %s %s" % (s, st.p[1:]))
        if chars == {"#"} and lo == "0":
            t = ("hash",)
            fl.wd[t] = 64
            return ("val", t)
        if st.p[1] is not False or p not in ("0", "A"):
            raise Skip("a search in an unknown part %s %s" % (s, st.p[1:]))
        if chars == {"#"}:
            a, b = st.copy(), st.copy()
            fl.assume(a, fl.mk_icmp("eq", C0, C(35), 8), True)
            fl.assume(b, fl.mk_icmp("ne", C0, C(35), 8), True)
            t = ("hash",)
            fl.wd[t] = 64
            fl.assume(b, fl.mk_icmp("ugt", t, C(0), 64), True)
            return [(a, C(0)), (b, t)]
        if chars == {"="}:
            if st.p[2] is None:
                return self.fork(fl, st, 2, (True, lo, "E"), (False, lo, None))
            return ("val", self.off(fl, st, lo, "E") if st.p[2] else NPOS)
        if "=" in chars:
            if chars - {"="} != WS:
                self.report(st, ins, "does not end a keyword at exactly white space or the =")
            if st.p[2] is not True:
                raise Skip("a keyword without a =")
            return ("val", self.off(fl, st, lo, "K"))
        raise Skip("a search for other characters")

    def keep(self, fl, t):
        return True

    def load(self, fl, st, ins, a, f):
        if a == ("CH",):
            return ("val", C0)

    def event(self, fl, st, ins, c, args):
        if c.startswith("llvm."):
            return ("pure",)
        if c.startswith("std::getline"):
            if st.p[4] >= 1:
                st.dead = True
                return ("pure",)
            self.set(st, 4, 1)
            self.put(st, args[1], ("0", "N", None))
            self.line = args[1]
            return ("val", args[0])
        if c.endswith("basic_ios<char, std::char_traits<char>>::operator bool"):
            return None
        if not st.p[4]:
            return None
        if re.search(r"basic_ifstream<.*::(open|close)$", c):
            st.dead = True
            return ("pure",)
        if c.startswith(("std::operator==<", "std::operator!=<")):
            t = next((x for x in map(self.text, args) if x is not None), None)
            s = next((self.get(st, a) for a in args if self.get(st, a) is not None), None)
            if t is None or s is None:
                return None
            y, n = (0, 1) if "operator!=" in c else (1, 0)
            if t in KEYS:
                self.keyword(fl, st, ins, s)
                if st.p[5] is not None:
                    return ("val", C(y if st.p[5] == t else n))
                a, b = st.copy(), st.copy()
                self.set(a, 5, t)
                return [(a, C(y)), (b, C(n))]
            self.value(fl, st, ins, s)
            st.dead = True
            return ("pure",)
        if "process_channels" in c:
            s = self.get(st, args[1])
            if s is not None:
                self.value(fl, st, ins, s)
            st.dead = True
            return ("pure",)
        if c.endswith(("fatal_finish", "DebugObject_ThreadSpecificData::start")):
            # what is written is not of interest here
            if c.endswith("fatal_finish"):
                if st.p[1] is True or fl.possible(st, C0, 8) == ((35, 35),):
                    self.report(st, ins, "refuses an empty line or a comment")
                st.dead = True
            return ("pure",)
        m = STR.match(c)
        if not m:
            return None if "array" in c else ("pure",)
        n = m.group(1)
        n = "ctor" if n.startswith("basic_string") else n if n.startswith("operator") else n.split("[")[0]
        if n.startswith("~"):
            return ("pure",)
        s = self.get(st, args[0])
        if n in ("operator=", "assign") and len(args) == 2 and s is None and self.get(st, args[1]) is not None and fl.root(args[0]) == ("a", 0):
            self.value(fl, st, ins, self.get(st, args[1]))
            st.dead = True
            return ("pure",)
        if n in ("ctor", "operator=") and len(args) == 2:
            o = self.get(st, args[1])
            if o is None:
                if s is not None:
                    raise Skip("an unknown string is assigned")
                return ("pure",)
            self.put(st, args[0], o)
            return ("val", args[0])
        if n in ("ctor", "assign") and len(args) == 4 and self.get(st, args[1]):
            return self.sub(fl, st, ins, args[0], self.get(st, args[1]), args[2], args[3])
        if n == "substr" and self.get(st, args[1]):
            return self.sub(fl, st, ins, args[0], self.get(st, args[1]), args[2], args[3])
        if s is None:
            return ("pure",)
        lo, hi, up = s
        m = re.match(r"find_(first_not|first|last_not|last)_of$|r?find$", n)
        if m and len(args) == 3:
            chars = self.text(args[1])
            if chars is None and args[1][0] == "c":
                chars = chr(args[1][1] & 255)
            if n in ("find_last_of", "rfind") and chars == "=" and lo == "A":
                return ("val", self.off(fl, st, lo, "EL"))
            if chars is None or n == "find_last_of" or n == "find" and len(chars) != 1:
                raise Skip("an unknown search: " + n)
            return self.search(fl, st, ins, s, chars, args[2], {"find_first_not_of": "not", "find_last_not_of": "last_not"}.get(n, "of"))
        if n == "erase" and len(args) == 3:
            a, k = args[1], strip(args[2])
            if a == C(0) and npos(k):
                self.put(st, args[0], (hi, hi, up))
            elif a == C(0):
                self.put(st, args[0], (self.where(lo, k), hi, up))
            else:
                p = self.where(lo, a)
                if not npos(k):
                    ln, d = (strip(k[1]), k[2]) if k[0] == "+" else (k, 0)
                    if ln[0] != "len" or ln[1] not in ORDER or ln[2] not in (hi, "N") or d < -1 or d == -1 and p not in ("K", "E") \
                            or ORDER.index(ln[1]) > ORDER.index(lo):
                        raise Skip("a part is erased in an unknown way")
                self.put(st, args[0], (lo, p, up))
            return ("val", args[0])
        if n in ("length", "size", "empty"):
            if lo == hi:
                return ("val", C(0 if n != "empty" else 1))
            if lo in ("A", "V", "E") or lo == "0" and st.p[1] is False:
                if n == "empty":
                    return ("val", C(0))
                t = ("len", lo, hi)
                fl.wd[t] = 64
                fl.assume(st, fl.mk_icmp("ugt", t, C(0), 64), True)
                fl.assume(st, fl.mk_icmp("ult", t, C(1 << 30), 64), True)
                return ("val", t)
            raise Skip("the length of an unknown part")
        if n in ("operator[]", "at", "front") and lo == "A" and (n == "front" or args[1] == C(0)):
            return ("val", ("CH",))
        if n in ("c_str", "reserve") or n == "operator[]" and lo == "0":
            return None
        raise Skip("an unknown use of a string: " + n)

    def keyword(self, fl, st, ins, s):
        self.ctx.count("keywords followed")
        if st.p[1] is not False:
            self.report(st, ins, "interprets a line without anything in it")
        elif fl.decide(st, fl.mk_icmp("ne", C0, C(35), 8)) is not True:
            self.report(st, ins, "interprets a line that may be a comment")
        elif s[:2] != ("A", "K"):
            self.report(st, ins, "looks for a keyword in something else than what is before the = and white space %s" % (s[:2],))

    def value(self, fl, st, ins, s):
        self.ctx.count("values followed")
        lo, hi = s[:2]
        if st.p[3] is True and (lo, hi) != ("V", "B") or st.p[3] is False and lo != hi and not (lo == "E1" and hi == "E1") or st.p[3] is None:
            self.report(st, ins, "uses something else as value than what is behind the =, without white space around it %s" % (s[:2],))

    def ret(self, fl, st, ins, val):
        self.n += 1


def run_lines(ctx, strings):
    prog = inl(dump=[r"^libcwd::RcFile::"], noinline=[r"^std::", "DebugObject", "Channel", "::instance$", r"^libcwd::RcFile::(process_channels?|print_delayed_msg|unknown_keyword|determine_rcfile_name|set_all_channels_on|set_all_channels_off)"])
    fs = [f for f in prog.fns.values() if f.base.split("[")[0] == "libcwd::RcFile::read" and "$_" not in f.dem]
    if len(fs) != 1:
        raise Broken("anchor vanished: RcFile::read")
    tab = strings(prog)
    r = Line(ctx, lambda t: tab.get(t[1], "").split("\0")[0] if t[0] == "g" and t[1] in tab else None, None)
    r.unroll = 2
    analyse(fs[0], r, 200000)
    if r.skip:
        ctx.ok("read(): how a line is split is not judged: %s" % r.skip)
        return
    for m, (w, p) in r.bad.items():
        k = m.split(" (")[0]
        ctx.violation("line|" + k, "read() %s" % m, w, p)
    if not r.bad:
        ctx.ok("read(): the text of a line")
