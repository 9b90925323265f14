"""How symbols get from the files into the tables, and how an address is looked up in the files.

The walks over the compilation units (load_function_symbols), over the address ranges of a function (its callback) and over
the symbol tables (load_elf_function_symbols), with their helpers inlined, are followed on every path with a protocol automaton over
the calls of libdw and libelf: every iterator call continues where the previous one ended (same handle, the offset it returned,
the previous section or data block, the next index), the walk is left only when the iterator said that there is no more, and
what one step delivered is handed on exactly once, unchanged: each compilation unit to dwarf_getfuncs with the callback and
the context that holds this object and its load base, each range with the function's name, DIE and load base, each defined, named, sized function
symbol with value and value plus size, a copy of its name and the load base.  A copy that was stored is not freed.
The callback never stops the walk.  A run-time address is converted by subtracting the load base wherever libdw is asked
about it; the function's own name is always in the answer.  """
from sym import *
from flow import C
import random

FLOORS = {"functions followed": 4, "exits": 4}
TECHNIQUE = "path-sensitive typestate of the iteration protocols of libdw and libelf, with symbolic terms for what each step delivers"
NOTE = "libdw and libelf are assumed to work as documented; code that uses other functions of these libraries than the ones known here is counted, not judged"
NS = "libcwd::dwarf::"
ADD = re.compile(r"::add_function_symbol_range$")
DEBUG = r"DebugObject|::Channel::|basic_ostream|operator<<|::instance$|ios_base|^std::"
rnd = random.Random(7)


class Walk(Rule):
    merge = False
    max_states = 200
    what = ""

    def __init__(self, ctx, fn, **kw):
        self.ctx, self.fn = ctx, fn
        self.bad, self.seen = {}, set()
        self.__dict__.update(kw)

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), st.path()))

    def keep(self, fl, t):
        return self.named(t)

    def named(self, t):
        if not isinstance(t, tuple) or not t:
            return False
        if isinstance(t[0], str) and t[0].isupper():
            return True
        return any(self.named(x) for x in t[1:])

    def keep_mem(self, fl, a, f):
        return True

    def get(self, st, k, d=None):
        for a, b in st.p:
            if a == k:
                return b
        return d

    def put(self, st, **kw):
        st.p = tuple(x for x in st.p if x[0] not in kw) + tuple(sorted(kw.items()))

    def start(self, fl, st):
        st.p = ()

    def same(self, fl, a, b, leaves):
        """are the terms a and b the same function of the leaves?"""
        if a == b:
            return True
        for _ in range(24):
            m = {l: rnd.getrandbits(40) for l in leaves}
            x, y = fl.evalterm(a, m), fl.evalterm(b, m)
            if x is None or y is None:
                return None
            if (x - y) & ((1 << 64) - 1):
                return False
        return True

    def out(self, fl, st, ins, addr, t, w=64):
        """the library writes t to addr"""
        fl.wd[t] = w
        if addr[0] != "c":
            fl.mem_store(st, addr, t, None)

    def nul(self, fl, st, t):
        """True: is null, False: is not, None: may be either"""
        if t[0] == "c":
            return t[1] == 0
        if fl.root(t)[0] in ("al", "g"):
            return False
        q = fl.possible(st, t, fl.w(t) or 64)
        if q == ((0, 0),):
            return True
        return None if any(a <= 0 <= b for a, b in q) else False

    def modifies(self, fl, st, ins, args):
        return None

    def call(self, fl, st, ins, args):
        c = ins.callee or "indirect"
        r = self.api(fl, st, ins, args, c)
        if r is not None:
            return r
        if re.search(DEBUG, c) or c.startswith("llvm.") and not c.startswith("llvm.mem"):
            return ("pure",)
        return None

    def api(self, fl, st, ins, args, c):
        return None

    def ret(self, fl, st, ins, val):
        self.ctx.count("exits")
        self.leave(fl, st, ins, val)


    def fork(self, fl, st, t, w=64, **null):
        """the result is t, which is not zero, or zero with this in the state instead"""
        a = st.copy()
        self.put(a, **null)
        q = [(a, C(0))]
        if fl.assume(st, fl.mk_icmp("ne", t, C(0), w), True) is not False:
            q.append((st, t))
        return q


def flip(k):
    return 1 - k


class Units(Walk):
    """load_function_symbols(): this = a0, lbase = a1"""
    def api(self, fl, st, ins, args, c):
        if c == "dwarf_nextcu":
            self.seen.add("nextcu")
            self.step(fl, st, ins)
            k = self.get(st, "k")
            if k is None:
                if not fl.is_const(st, args[1], 0):
                    self.report(st, ins, "does not begin with the first compilation unit")
            else:
                if args[0] != self.get(st, "h"):
                    self.report(st, ins, "continues in another file")
                if self.same(fl, args[1], ("NEXT", k), [("NEXT", k), self.get(st, "off"), ("HDR", k)]) is False:
                    self.report(st, ins, "does not continue with the next compilation unit")
            k = flip(k or 0)
            self.out(fl, st, ins, args[2], ("NEXT", k))
            self.out(fl, st, ins, args[3], ("HDR", k))
            t = fl.fresh(st, ins)
            fl.wd[t] = 32
            self.put(st, k=k, h=args[0], off=args[1], res=t, die=None, done=0)
            return ("val", t)
        if c == "dwarf_offdie":
            k = self.get(st, "k")
            if k is None:
                return None
            if args[0] != self.get(st, "h"):
                self.report(st, ins, "reads a compilation unit of another file")
            off = self.get(st, "off")
            if off[0] != "c":
                fl.wd[off] = 64
            if self.same(fl, args[1], fl.mk_idx(off, 0, [(("HDR", k), 1)]), [off, ("HDR", k), ("NEXT", k)]) is False and \
                    self.value(fl, args[1], off, k) is False:
                self.report(st, ins, "reads something else than the unit behind the header")
            t = fl.fresh(st, ins)
            fl.wd[t] = 64
            self.put(st, die=(t, args[2]), done=0)
            return self.fork(fl, st, t, die=(C(0), args[2]))
        if c == "dwarf_getfuncs":
            self.seen.add("getfuncs")
            d = self.get(st, "die")
            if d and args[0] not in d:
                self.report(st, ins, "asks for the functions of something else than the unit")
            if self.get(st, "done"):
                self.report(st, ins, "asks twice for the functions of a unit")
            if (args[3][0] == "c" and not fl.is_const(st, args[3], 0)) or self.named(args[3]):
                self.report(st, ins, "does not begin with the first function of a unit")
            if args[1][0] == "g":
                self.seen.add(("cb", args[1][1]))
            for o, want, nm in ((self.lay.get("this"), ("a", 0), "object file"), (self.lay.get("lbase"), ("a", 1), "load base")):
                if o is not None:
                    v = st.mem.get(o and ("+", args[2], o) or args[2])
                    if v is not None and v != want:
                        self.report(st, ins, "hands the wrong %s to the callback" % nm)
            self.put(st, done=1)
            t = fl.fresh(st, ins)
            fl.wd[t] = 64
            return ("val", t)
        return None

    def value(self, fl, t, off, k):
        vals = []
        for _ in range(8):
            m = {("HDR", k): rnd.getrandbits(20), ("NEXT", k): rnd.getrandbits(30), ("NEXT", flip(k)): rnd.getrandbits(30)}
            if off[0] != "c":
                m[off] = rnd.getrandbits(30)
            x, o = fl.evalterm(t, m), fl.evalterm(off, m)
            if x is None or o is None:
                return None
            vals.append(x == (o + m[("HDR", k)]) & ((1 << 64) - 1))
        return all(vals)

    def step(self, fl, st, ins):
        r = self.get(st, "res")
        if r is None or fl.possible(st, r, 32) != ((0, 0),):
            return
        d = self.get(st, "die")
        if d is None:
            self.report(st, ins, "skips a compilation unit")
        elif not self.get(st, "done") and self.nul(fl, st, d[0]) is not True:
            self.report(st, ins, "skips the functions of a compilation unit")

    def leave(self, fl, st, ins, val):
        self.step(fl, st, ins)
        r = self.get(st, "res")
        if r is None:
            if "nextcu" in self.seen:
                self.report(st, ins, "does not look at the compilation units")
        elif any(a <= 0 <= b for a, b in fl.possible(st, r, 32)):
            self.report(st, ins, "stops before the last compilation unit")


class Ranges(Walk):
    """the callback: die = a0, context = a1"""
    def load(self, fl, st, ins, a, f):
        r = fl.root(a)
        if r == ("a", 1) and a not in st.mem:
            t = ("CTX", a[2] if a[0] == "+" else 0)
            fl.wd[t] = 64
            st.mem[a] = t
            return ("val", t)
        return None

    def api(self, fl, st, ins, args, c):
        if c.endswith("::function_symbol_name"):
            if args[0] != ("a", 0):
                self.report(st, ins, "takes the name of something else")
            t = fl.fresh(st, ins)
            fl.wd[t] = 64
            self.put(st, name=t)
            return self.fork(fl, st, t, name=C(0))
        if c == "dwarf_ranges":
            self.seen.add("ranges")
            self.step(fl, st, ins)
            k = self.get(st, "k")
            if args[0] != ("a", 0):
                self.report(st, ins, "reads the ranges of something else")
            if k is None:
                if not fl.is_const(st, args[1], 0):
                    self.report(st, ins, "does not begin with the first range")
            else:
                if args[1] != ("OFFSET", k) and self.same(fl, args[1], ("OFFSET", k), [("OFFSET", k)]) is not None:
                    self.report(st, ins, "does not continue with the next range")
                if st.mem.get(args[2]) not in (("BASE",), None):
                    self.report(st, ins, "changes the base address that belongs to the walk")
            k = flip(k or 0)
            self.out(fl, st, ins, args[2], ("BASE",))
            self.out(fl, st, ins, args[3], ("START", k))
            self.out(fl, st, ins, args[4], ("END", k))
            # nothing that was known about the range before the previous one is known about this one
            t = ("OFFSET", k)
            for f in [f for f in list(st.facts) + list(st.kb) if any(mentions(f, (n, k)) for n in ("OFFSET", "START", "END"))]:
                st.facts.pop(f, None)
                st.kb.pop(f, None)
            fl.wd[t] = 64
            self.put(st, k=k, done=0)
            return ("val", t)
        if ADD.search(c):
            self.seen.add("adds")
            k = self.get(st, "k")
            if k is None:
                self.report(st, ins, "registers a function without reading its ranges")
                return ("pure",)
            for o, want, nm in ((1, ("START", k), "start"), (2, ("END", k), "end"), (4, ("a", 0), "DIE")):
                if args[o] != want and self.same(fl, args[o], want, [("START", k), ("END", k), ("START", flip(k)), ("END", flip(k))]) is not None:
                    self.report(st, ins, "registers a function with the wrong " + nm)
            n = self.get(st, "name")
            if n is not None and args[3] != n:
                self.report(st, ins, "registers a function under another name")
            for o, nm in ((0, "this"), (5, "lbase")):
                if args[o][0] == "CTX":
                    if self.lay.setdefault(nm, args[o][1]) != args[o][1]:
                        self.report(st, ins, "uses different members of the context as " + nm)
                elif args[o][0] == "c":
                    self.report(st, ins, "does not use the %s of the context" % nm)
            if not any(0 < b and a < (1 << 64) - 1 for a, b in fl.possible(st, ("OFFSET", k), 64)):
                self.report(st, ins, "registers a range that was not delivered")
            elif any(a <= v <= b for a, b in fl.possible(st, ("OFFSET", k), 64) for v in (0, (1 << 64) - 1)):
                self.report(st, ins, "registers a range without knowing that one was delivered")
            if self.get(st, "done"):
                self.report(st, ins, "registers a range twice")
            self.put(st, done=1)
            return ("val", fl.fresh(st, ins))
        return None

    def step(self, fl, st, ins):
        k = self.get(st, "k")
        if k is not None and not self.get(st, "done") and fl.consistent(st, {("OFFSET", k): 5, ("START", k): 0x100, ("END", k): 0x180}) \
                and any(a <= 5 <= b for a, b in fl.possible(st, ("OFFSET", k), 64)):
            self.report(st, ins, "leaves out a range")

    def leave(self, fl, st, ins, val):
        if not fl.is_const(st, val, 0):
            self.report(st, ins, "stops the walk over the functions of the unit")
        if "ranges" not in self.seen and "adds" not in self.seen and self.get(st, "name") is None:
            return
        self.step(fl, st, ins)
        k = self.get(st, "k")
        if k is None:
            n = self.get(st, "name")
            if n is not None and self.nul(fl, st, n) is not True:
                self.report(st, ins, "leaves out a function that has a name")
        elif any(a < 1 << 63 and b > 0 for a, b in fl.possible(st, ("OFFSET", k), 64)):
            self.report(st, ins, "stops before the last range")


class Elf(Walk):
    """load_elf_function_symbols(): this = a0, lbase = a1"""
    SHDR = {"sh_type": 4, "sh_link": 40, "sh_entsize": 56}
    SYM = {"st_name": (0, 32), "st_info": (4, 8), "st_other": (5, 8), "st_shndx": (6, 16), "st_value": (8, 64), "st_size": (16, 64)}
    unroll = 2
    NAME = ("NAME",)
    L = ("a", 1)
    alone = False       # one symbol: this = a0, symbol = a1, name = a2, lbase = a3
    apart = True        # that is a function of its own

    def start(self, fl, st):
        st.p = ()
        if self.alone:
            self.NAME, self.L = ("a", 2), ("a", 3)
            fl.wd[self.NAME], fl.wd[("CH",)] = 64, 8
            st.mem[self.NAME] = ("CH",)
            for f, (o, w) in self.SYM.items():
                fl.wd[("SYM", f)] = w
                st.mem[("+", ("a", 1), o) if o else ("a", 1)] = ("SYM", f)
            self.put(st, sym=("READ",), added=0, name=self.NAME, copy=None, n=None)

    def nul(self, fl, st, t):
        return False if t == ("READ",) else Walk.nul(self, fl, st, t)

    def api(self, fl, st, ins, args, c):
        if c == "elf_nextscn":
            self.seen.add("nextscn")
            self.endsection(fl, st, ins)
            s = self.get(st, "scn")
            if s is None:
                if not fl.is_const(st, args[1], 0):
                    self.report(st, ins, "does not begin with the first section")
            elif args[1] != s:
                self.report(st, ins, "does not continue with the next section")
            t = fl.fresh(st, ins)
            fl.wd[t] = 64
            self.put(st, scn=t, hdr=None, data=None, got=0, sym=None, n=None)
            return self.fork(fl, st, t, scn=C(0))
        if c == "gelf_getshdr":
            if self.get(st, "scn") is not None and args[0] != self.get(st, "scn"):
                self.report(st, ins, "reads the header of another section")
            for f, o in self.SHDR.items():
                t = ("SH", f)
                w = 64 if f == "sh_entsize" else 32
                self.forget(st, t)
                self.out(fl, st, ins, ("+", args[1], o), t, w)
            t = fl.fresh(st, ins)
            fl.wd[t] = 64
            self.put(st, hdr=t)
            return self.fork(fl, st, t, hdr=C(0))
        if c == "elf_getdata":
            self.enddata(fl, st, ins)
            d = self.get(st, "data")
            if args[0] != self.get(st, "scn"):
                self.report(st, ins, "reads the data of another section")
            if d is None:
                if not fl.is_const(st, args[1], 0):
                    self.report(st, ins, "does not begin with the first data of a section")
            elif args[1] != d:
                self.report(st, ins, "does not continue with the next data of a section")
            if any(fl.consistent(st, {("SH", "sh_type"): v}) for v in (0, 1, 3, 4, 8)):
                self.report(st, ins, "reads symbols from a section that is no symbol table")
            t = fl.fresh(st, ins)
            fl.wd[t] = 64
            self.forget(st, ("DSIZE",))
            self.put(st, data=t, got=1, sym=None, n=None)
            return self.fork(fl, st, t, data=C(0))
        if c in ("gelf_getsym",):
            self.seen.add("getsym")
            self.endsym(fl, st, ins)
            if args[0] != self.get(st, "data"):
                self.report(st, ins, "reads a symbol of other data")
            n = self.get(st, "n")
            i = args[1]
            if n is None:
                if i[0] == "c" and i[1] != 0:
                    self.report(st, ins, "does not begin with the first symbol")
            elif n[0] == "c" and i[0] == "c" and i[1] != n[1] + 1:
                self.report(st, ins, "does not continue with the next symbol")
            for f, (o, w) in self.SYM.items():
                t = ("SYM", f)
                self.forget(st, t)
                self.out(fl, st, ins, ("+", args[2], o) if o else args[2], t, w)
            self.forget(st, self.NAME)
            self.forget(st, ("CH",))
            t = fl.fresh(st, ins)
            fl.wd[t] = 64
            self.put(st, sym=t, at=args[2], n=i, added=0, name=None, copy=None)
            return self.fork(fl, st, t, 64, sym=C(0))
        if c == "elf_strptr":
            if self.get(st, "sym") is None:
                return None
            if args[1] != ("SH", "sh_link") and not (args[1][0] in ("zext", "sext") and args[1][2] == ("SH", "sh_link")):
                self.report(st, ins, "takes names from another section than the one that the table is linked to")
            if args[2] != ("SYM", "st_name") and not (args[2][0] in ("zext", "sext") and args[2][2] == ("SYM", "st_name")):
                self.report(st, ins, "takes the name of something else")
            t = self.NAME
            fl.wd[t] = 64
            self.put(st, name=t)
            fl.wd[("CH",)] = 8
            st.mem[t] = ("CH",)
            return ("val", t)
        if c in ("malloc", "std::malloc", "strdup", "strndup", "calloc", "__strdup"):
            t = ("BUF",)
            self.forget(st, t)
            fl.wd[t] = 64
            self.put(st, copy=("full" if c in ("strdup", "__strdup") and args[0] == self.NAME else "raw"), got_mem=1)
            return self.fork(fl, st, t, copy=None, got_mem=0)
        if c in ("strlen", "std::strlen") and args[0] == self.NAME:
            fl.wd[("LEN",)] = 64
            return ("val", ("LEN",))
        if c in ("strcpy", "stpcpy") and args[0] == ("BUF",):
            self.put(st, copy="full" if args[1] == self.NAME else "raw")
            return ("val", args[0]) if c == "strcpy" else ("pure",)
        if c == "memcpy" and args[0] == ("BUF",):
            self.memcpy(fl, st, ins, *args[:3])
            return ("val", args[0])
        if c in ("free", "std::free") and args[0] == ("BUF",):
            r = self.get(st, "added")
            if r not in (0, None) and self.nul(fl, st, r) is not True:
                self.report(st, ins, "frees a name that may have been stored")
            self.put(st, copy="freed")
            return ("pure",)
        if c.startswith("llvm.mem") and fl.root(args[0])[0] == "al":
            return None
        if c.endswith("::add_elf_function_symbol"):
            s = self.get(st, "sym")
            if s is None:
                return None
            if self.nul(fl, st, s) is not False:
                self.report(st, ins, "registers a symbol that could not be read")
            if args[1][0] == "al" and args[1] != self.get(st, "at"):
                self.report(st, ins, "registers another symbol")
            if args[2] != self.NAME and args[2][0] in ("c", "a"):
                self.report(st, ins, "registers a symbol under another name")
            if args[3] != self.L and args[3][0] in ("c", "a"):
                self.report(st, ins, "registers a symbol with another load base")
            if self.get(st, "added"):
                self.report(st, ins, "registers a symbol twice")
            self.put(st, added=C(1))
            return ("pure",)
        if ADD.search(c):
            self.seen.add("adds")
            v, z = ("SYM", "st_value"), ("SYM", "st_size")
            lv = [v, z, self.L]
            if self.same(fl, args[1], v, lv) is False:
                self.report(st, ins, "registers a symbol with the wrong start")
            if self.same(fl, args[2], fl.mk_idx(v, 0, [(z, 1)]), lv) is False and not self.sums(fl, args[2], v, z):
                self.report(st, ins, "registers a symbol with the wrong end")
            if args[3] == self.NAME:
                self.report(st, ins, "stores a name that is gone when the file is closed")
            elif args[3] == ("BUF",):
                if self.get(st, "copy") != "full":
                    self.report(st, ins, "stores a name that is not a copy of the symbol's")
            if not fl.is_const(st, args[4], 0) and args[4][0] != "i":
                self.report(st, ins, "registers a symbol with a DIE")
            if args[5] != self.L and args[5][0] in ("c", "a"):
                self.report(st, ins, "registers a symbol with another load base")
            if args[0] != ("a", 0) and args[0][0] in ("c", "a"):
                self.report(st, ins, "registers a symbol for another object file")
            if self.get(st, "added"):
                self.report(st, ins, "registers a symbol twice")
            for m, msg in (({("SYM", "st_info"): x}, "that is not a function") for x in (0x10, 0x11, 0x13, 0x14, 0x16, 0x20, 0x01)):
                if fl.consistent(st, m):
                    self.report(st, ins, "registers a symbol " + msg)
            if fl.consistent(st, {("SYM", "st_shndx"): 0}):
                self.report(st, ins, "registers a symbol that is not defined")
            s = self.get(st, "sym")
            if s is not None and self.nul(fl, st, s) is not False:
                self.report(st, ins, "registers a symbol that could not be read")
            t = fl.fresh(st, ins)
            fl.wd[t] = 1
            self.put(st, added=t)
            return ("val", t)
        return None

    def known(self, fl, st, m):
        """is everything that was asked about the symbol decided by m?"""
        return all(fl.evalterm(t, m) is not None for t in list(st.facts) + list(st.kb) if self.tagged(t))

    def tagged(self, t):
        return isinstance(t, tuple) and (t == self.NAME or bool(t) and (t[0] in self.leaves or any(self.tagged(x) for x in t[1:])))

    leaves = ("SYM", "CH", "LEN", "DSIZE", "SH")

    def memcpy(self, fl, st, ins, dst, src, n):
        if fl.root(dst) == ("BUF",):
            v = fl.evalterm(n, {("LEN",): 10})
            self.put(st, copy="raw" if dst == ("BUF",) and (src != self.NAME or v is not None and v < 11) else "full")

    def store(self, fl, st, ins, a, v, f):
        if self.get(st, "copy") == "raw" and (fl.root(a) == ("BUF",) or mentions(a, ("BUF",))):
            self.put(st, copy="full")

    def load(self, fl, st, ins, a, f):
        if a[0] == "+" and a[2] == 16 and self.get(st, "data") is not None and a[1] == self.get(st, "data"):
            fl.wd[("DSIZE",)] = 64
            st.mem[a] = ("DSIZE",)
            return ("val", ("DSIZE",))
        return None

    def sums(self, fl, t, v, z):
        for _ in range(8):
            m = {v: rnd.getrandbits(40), z: rnd.getrandbits(20), self.L: rnd.getrandbits(30)}
            x = fl.evalterm(t, m)
            if x is None:
                return True
            if x != m[v] + m[z]:
                return False
        return True

    def forget(self, st, t):
        for f in [f for f in list(st.facts) + list(st.kb) if mentions(f, t)]:
            st.facts.pop(f, None)
            st.kb.pop(f, None)

    def endsym(self, fl, st, ins):
        s = self.get(st, "sym")
        if s is None:
            return
        if self.get(st, "added"):
            return
        if self.nul(fl, st, s) is True or self.get(st, "got_mem") == 0:
            return
        if self.get(st, "name") is not None and self.nul(fl, st, self.NAME) is True:
            return
        if not self.alone:
            if self.apart:
                self.report(st, ins, "leaves out a symbol")
            return
        for info in (0x12, 0x02, 0x22, 0x1a, 0x0a):
            for shndx in (1, 7, 0xfff1):
                for val, size in ((0x1000, 0x40), (0x7fffffff0000, 0x1), (0, 0x8)):
                    m = {("SYM", "st_info"): info, ("SYM", "st_shndx"): shndx, ("SYM", "st_value"): val, ("SYM", "st_size"): size, ("SYM", "st_name"): 5, ("SYM", "st_other"): 0,
                         ("DSIZE",): 240, ("SH", "sh_type"): 2, ("SH", "sh_entsize"): 24, ("SH", "sh_link"): 3, self.L: 0x550000000000, ("CH",): 0x66, ("LEN",): 5, self.NAME: 0x5000, s: 0x6000}
                    if val == 0x7fffffff0000:
                        m[self.L] = 0
                    if fl.consistent(st, m) and self.known(fl, st, m):
                        self.report(st, ins, "leaves out a symbol")
                        return

    def enddata(self, fl, st, ins):
        self.endsym(fl, st, ins)
        d, n = self.get(st, "data"), self.get(st, "n")
        if d is None or self.nul(fl, st, d) is True or n is not None and n[0] != "c":
            return
        c = -1 if n is None else n[1]
        for e in (c + 2, c + 3):
            m = {("DSIZE",): 24 * e, ("SH", "sh_type"): 2, ("SH", "sh_entsize"): 24, ("SH", "sh_link"): 3, d: 0x7000}
            m.update({("SYM", f): 1 for f in self.SYM})
            if fl.consistent(st, m) and self.known(fl, st, m):
                self.report(st, ins, "stops before the last symbol of a table")

    def endsection(self, fl, st, ins):
        self.endsym(fl, st, ins)
        s = self.get(st, "scn")
        if s is None or self.nul(fl, st, s) is True:
            return
        h = self.get(st, "hdr")
        if self.get(st, "got"):
            if self.nul(fl, st, self.get(st, "data")) is not True:
                self.report(st, ins, "leaves a symbol table before its last data")
            return
        if h is not None and self.nul(fl, st, h) is True:
            return
        for v in (2, 11):
            if fl.consistent(st, {("SH", "sh_type"): v, ("SH", "sh_entsize"): 24, ("SH", "sh_link"): 3}):
                self.report(st, ins, "skips a symbol table (%s)" % {2: "SYMTAB", 11: "DYNSYM"}[v])

    def leave(self, fl, st, ins, val):
        s = self.get(st, "scn")
        if self.alone:
            self.endsym(fl, st, ins)
        if s is None:
            return
        self.endsection(fl, st, ins)
        if self.nul(fl, st, s) is not True:
            self.report(st, ins, "stops before the last section")


class Lookup(Walk):
    """functions that get an address and a load base and ask libdw about it"""
    def api(self, fl, st, ins, args, c):
        o = {"dwarf_getsrc_die": 1, "dwarf_getscopes": 1, "dwarf_haspc": 1, "dwarf_addrdie": 1}.get(c)
        if c.endswith("::innermost_inline_name_by_pc"):
            o = 1
        if o is not None:
            self.ctx.count("conversions")
            A, L = ("a", self.addr), ("a", self.addr + 1)
            for _ in range(8):
                m = {A: rnd.getrandbits(47), L: rnd.getrandbits(40)}
                x = fl.evalterm(args[o], m)
                if x is not None and (x - m[A] + m[L]) & ((1 << 64) - 1):
                    self.report(st, ins, "asks %s about another address than the link-time one" % c.rsplit("::", 1)[-1])
        if c.endswith("::lookup_innermost_inline_scope"):
            for a, w in zip([a for a in args if a[0] != "al" or True][-2:], (("a", self.addr), ("a", self.addr + 1))):
                if a != w and a[0] in ("a", "c", "op", "+", "sub", "add"):
                    self.report(st, ins, "looks for inlined functions at another address")
        return None

    def leave(self, fl, st, ins, val):
        pass


def run(ctx):
    ns = r"^libcwd::dwarf::"
    names = ["load_function_symbols", "cb_load_function_symbol", "load_elf_function_symbols", "add_elf_function_symbol", "lookup_location", "lookup_innermost_inline_scope"]
    prog = inl(dump=[ns + r".*(" + "|".join(names) + r")$"],
               inline=[r"^std::numeric_limits<"],
               noinline=[r"::add_function_symbol_range$", r"::function_symbol_name$", r"ObjectFileName::", r"DebugObject_ThreadSpecificData::", r"::instance$", r"Channel::is_on", r"DebugObject::",
                         ns + r".*::?(lookup_innermost_inline_scope|innermost_inline_name_by_pc|add_elf_function_symbol|load_function_symbols|load_elf_function_symbols)$"])
    got = {}
    for f in prog.fns.values():
        n = f.base.split("[")[0].rsplit("::", 1)[-1]
        if n in names and f.dem.startswith(NS):
            got[n] = f

    def go(name, rule):
        fn = got.get(name)
        if fn is None:
            ctx.ok("%s(): not there, not judged" % name)
            return
        r = rule(fn)
        ctx.analysed(fn)
        ctx.count("functions followed")
        try:
            analyse(fn, r, 300000)
        except Broken as e:
            ctx.ok("%s(): not judged (%s)" % (name, e))
            return
        for m, (w, p) in r.bad.items():
            ctx.violation("%s|%s" % (name, m), "%s() %s" % (name, m), w, p)
        if not r.bad:
            ctx.ok("%s(): every path" % name)
        return r

    lay = {}
    go("cb_load_function_symbol", lambda f: Ranges(ctx, f, lay=lay))
    go("load_function_symbols", lambda f: Units(ctx, f, lay=lay))
    go("load_elf_function_symbols", lambda f: Elf(ctx, f, apart=any((i.callee or "").endswith("::add_elf_function_symbol") for i in f.calls())))
    go("add_elf_function_symbol", lambda f: Elf(ctx, f, alone=True))

    def lk(f):
        ptrs = [i for i in range(len(f.args))]
        return Lookup(ctx, f, addr=len(ptrs) - 2)
    go("lookup_location", lk)
    go("lookup_innermost_inline_scope", lk)
