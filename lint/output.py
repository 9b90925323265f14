"""Symbolic paths of DebugObject_ThreadSpecificData::start and ::finish (shared by several checks)."""
from sym import *

DOTSD = "libcwd::DebugObject_ThreadSpecificData"
TSD = "libcwd::_private_::ThreadSpecificData"
NOINL = [r"^libcwd::DebugObject_ThreadSpecificData::(start|finish|fatal_finish)$", r"ThreadSpecificData::instance$",
         r"libcwd::(_private_::)?Buffer::", r"OstreamState::", r"write_whitespace_to", r"^libcwd::Location::",
         r"DebugStack", r"strerrno", r"^libcwd::operator<<", r"^std::operator<<", r"^libcwd::_private_::print_pop_error$"]
BIT = dict(nonewline=1, noprefix=2, nolabel=4, blank_margin=8, blank_label=0x10, blank_marker=0x20, cerr=0x40, flush=0x80,
           wait=0x100, error=0x200, continued_cf=0x400, expected=0x800, fatal=0x1000, core=0x2000, continued=0x4000, finish=0x8000)
ERRNO = ("o", "errno")
ERRNO_SAFE = (r"DebugStack", r"Buffer::continued$", r"__errno_location", r"^operator delete", r"ThreadSpecificData::instance$",
              r"^std::atomic", r"^libcwd::strerrno$", r"Buffer::store_position$")


def program():
    return inl(dump=[r"^libcwd::DebugObject_ThreadSpecificData::(start|finish|fatal_finish)$"], noinline=NOINL)


class Out(Sym):
    max_states = 100000
    unroll = 2

    def __init__(self, prog, ctx=None):
        Sym.__init__(self, ctx)
        self.prog = prog

    def start(self, fl, st):
        Sym.start(self, fl, st)
        o = self.prog.offset
        self.this, self.obj, self.cs, self.tsd = ("a", 0), ("a", 1), ("a", 2), ("a", 3)
        self.index = ("m0", fl.mk_add(self.obj, o("libcwd::DebugObject", "index_")))
        self.slot = fl.mk_idx(self.tsd, o(TSD, "debug_object_off_array"), [(self.index, 4)])
        self.own = fl.mk_idx(self.tsd, o(TSD, "debug_object_array"), [(self.index, 8)])
        self.S = ("m0", fl.mk_add(self.cs, o("libcwd::ChannelSetData", "mask")))
        self.cur0 = ("m0", self.f(fl, "current"))
        self.bs0 = ("m0", self.f(fl, "current_bufferstream"))
        self.M0 = ("m0", self.os_(fl, self.cur0, "mask"))
        self.fl = fl
        self.strings = {}
        self.other = set()

        def scan(v):
            if isinstance(v, dict):
                if "g" in v and "s" in v:
                    self.strings[v["g"]] = v["s"]
                for x in v.values():
                    scan(x)
            elif isinstance(v, list):
                for x in v:
                    scan(x)
        for i in fl.fn.instrs():
            scan(i.d)

    def f(self, fl, name):
        """address of a member of *this"""
        return fl.mk_add(self.this, self.prog.offset(DOTSD, name))

    def os_(self, fl, base, name):
        """address of a member of an OutputState"""
        return fl.mk_add(base, self.prog.offset("libcwd::OutputState", name))

    def load(self, fl, st, ins, a, f):
        if a == self.own:       # the thread's entry for this debug object is *this
            return ("val", self.this)
        r = Sym.load(self, fl, st, ins, a, f)
        if r is not None and r[1] == self.cur0:
            fl.restrict(st, r[1], compl(((0, 0),), 64), 64)     # current is never null
        return r

    def event(self, st, *x):
        """the last element is the amount by which the object's off counter is raised at that moment"""
        v = st.mem.get(self.slot, ("m0", self.slot))
        d = 0 if v == ("m0", self.slot) else v[2] if v[0] == "+" and v[1] == ("m0", self.slot) else None
        Sym.event(self, st, *(x + (d,)))

    def offnet(self, st):
        v = st.mem.get(self.slot, ("m0", self.slot))
        return 0 if v == ("m0", self.slot) else v[2] if v[0] == "+" and v[1] == ("m0", self.slot) else None

    def n(self, st, k):
        return sum(1 for e in self.events(st) if e[0] == k)

    def errno_changed(self, fl, st, ins):
        st.mem[ERRNO] = ("op", "errno", ("c", ins.id), ("c", 0))

    def cas(self, fl, st, ins, addr, *a):
        return None

    def known(self, fl, st, ins, args, c):
        if c == "__errno_location":
            return ("val", ERRNO)
        safe = any(re.search(x, c) for x in ERRNO_SAFE)
        if not safe:
            self.errno_changed(fl, st, ins)
        if c.endswith("ThreadSpecificData::instance"):
            return ("val", self.tsd)
        if c == "operator new":
            t = ("o", "new%d" % self.n(st, "new"))
            self.event(st, "new", t)
            return ("val", t)
        if c in ("operator delete",):
            self.event(st, "delete", args[0])
            return ("pure",)
        if "DebugStack" in c:
            m = c.rsplit("::", 1)[1]
            t = ("o", m + str(self.n(st, m)))
            if m == "size":
                fl.wd[t] = 64
            self.event(st, m, args[0], tuple(args[1:]), t)
            return ("val", t) if m in ("top", "size") else ("pure",)
        if c.endswith("::fatal_finish") or c in ("abort", "std::abort", "_Exit", "std::terminate", "exit", "libcwd::core_dump", "_exit"):
            self.event(st, c.split("::")[-1], tuple(args))
            self.end(fl, st, ins)
            return None
        if re.search(r"sleep_for|chrono", c):
            self.event(st, "sleep")
            return ("pure",)
        if re.search(r"^std::.*ostream", c) or c.startswith("std::operator<<") or c.startswith("std::flush"):
            k = "<<" if "operator<<" in c else c.rsplit("::", 1)[1]
            self.event(st, "os", args[0], k, tuple(args[1:]))
            return ("val", args[0])
        if c.startswith(("std::istream", "std::basic_istream", "nanosleep", "std::ios_base", "std::basic_ios", "llvm.", "libcwd::Location::")):
            return ("pure",)
        if c.startswith("libcwd::operator<<"):
            return ("val", args[0])
        if c.endswith("write_whitespace_to"):
            self.event(st, "os", args[0], "blank", tuple(args[1:]))
            return ("pure",)
        m = re.search(r"Buffer::(\w+)$", c)
        if m and not c.startswith("std::"):
            self.event(st, "buffer", m.group(1), tuple(args))
            return ("pure",)
        m = re.search(r"OstreamState::(\w+)$", c)
        if m:
            self.event(st, "ostate", m.group(1), tuple(args))
            for a in args:
                if fl.root(a)[0] == "al":
                    for x in [x for x in st.mem if fl.root(x) == fl.root(a)]:
                        del st.mem[x]
            return ("pure",)
        if c.startswith("virtual "):
            self.event(st, "virtual", c, tuple(args))
            return ("pure",)
        self.other.add(c)
        self.event(st, "call", c, tuple(args))
        return ("pure",)

    def unwind(self, fl, st, ins):
        return None


def bits_of(st, term, extra=0):
    """the bits of term that the facts of the path look at"""
    b = [extra]

    def scan(t):
        if isinstance(t, tuple):
            if t and t[0] in ("and", "or") and len(t) == 3 and isinstance(t[2], int) and mentions(t[1], term):
                if t[2] >= 0 and t[2] < 1 << 32:
                    b[0] |= t[2] if t[2] < 1 << 31 else ~t[2] & 0xffffffff
            for x in t:
                scan(x)
    for t in st.facts:
        if mentions(t, term):
            scan(t)
    return b[0] & 0xffff


def models(fl, st, term, extra=0, fixed=None):
    """all values of the flag word term (over the bits the path looks at, and those of extra) that the path admits"""
    b = bits_of(st, term, extra)
    bl = [1 << i for i in range(16) if b >> i & 1]
    out = []
    for k in range(1 << len(bl)):
        v = sum(x for i, x in enumerate(bl) if k >> i & 1)
        env = dict(fixed or {})
        env[term] = v
        if fl.consistent(st, env):
            out.append(v)
    if not out:     # a fact such as 'the word is not zero' that no looked-at bit satisfies
        spare = 1 << 20
        for k in range(1 << len(bl)):
            v = spare + sum(x for i, x in enumerate(bl) if k >> i & 1)
            env = dict(fixed or {})
            env[term] = v
            if fl.consistent(st, env):
                out.append(v)
    return out


def summaries(ctx):
    """{"start": (fn, rule, flow), "finish": ...} plus the program"""
    prog = program()
    out = {}
    for n in ("start", "finish", "fatal_finish"):
        fn = prog.one(DOTSD + "::" + n)
        r = Out(prog, ctx)
        fl = analyse(fn, r, 400000)
        if not r.rets and not r.ends:
            raise Broken("%s has no end" % fn.dem)
        ctx.analysed(fn)
        ctx.count("paths of %s" % n, len(r.rets) + len(r.ends))
        out[n] = (fn, r, fl)
    return prog, out
