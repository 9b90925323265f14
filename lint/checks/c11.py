"""Bounds analysis of every fixed capacity.

Stack of outputs and of continued outputs: with the current position anywhere in the array (or just before it), each
operation of each instantiation touches only elements of the array and leaves the position there; leaving it would
end in a fatal error, which is shown never to return.  Arrays per thread: every subscript in the program is the index
of a debug object or channel (of the right kind) or a counter whose interval lies in the array, and every store to such an
index lies in the array, the registration counters being bounded by induction over their stores.  Labels: every write
to a label lies in the label and the common width never exceeds it.  Buffers on the stack: every length passed with a
local buffer is at most its size.  Popping an empty margin or marker stack ends in a fatal error."""
from core import *
from sym import *
from lin import *
import checks.c12 as c12

FLOORS = {"stack operations": 6, "element accesses": 4, "subscripts": 60, "index stores": 2, "label writes": 8, "local buffers": 3, "pops": 2}
TSDC = "libcwd::_private_::ThreadSpecificData"
NOINL = [r"^libcwd::(_private_::)?print_pop_error$", r"^libcwd::core_dump$", r"ThreadSpecificData::instance$", r"^libcwd::operator<<", r"^std::operator<<",
         r"^libcwd::DebugObject_ThreadSpecificData::(start|finish|fatal_finish|init)$", r"::ST_initialize_globals$", r"Location::", r"^libcwd::initialize$",
         r"::OstreamState::", r"set_ostream", r"::add_if_missing$"]
FATAL = (r"::fatal_finish$", r"^libcwd::core_dump$", r"^abort$", r"::print_pop_error$", r"^_Exit$", r"^std::abort$", r"^__clang_call_terminate$", r"^std::terminate$")


def fatal(c):
    return any(re.search(x, c) for x in FATAL)


def run(ctx):
    rp = raw()
    never(ctx)
    stacks(ctx, rp)
    subscripts(ctx, rp)
    labels(ctx)
    buffers(ctx, rp)
    prog = inl(dump=[r"^libcwd::DebugObject::pop_(margin|marker)$"], noinline=c12.NOINL)
    for n in ("margin", "marker"):
        fn = prog.one("libcwd::DebugObject::pop_" + n)
        ctx.analysed(fn)
        rule = c12.Str(ctx)
        fl = analyse(fn, rule)
        d = c12.own(prog, fl, None)
        t0 = ("m0", fl.mk_add(d, prog.offset("libcwd::DebugObject_ThreadSpecificData", n + "_stack")))
        for st, ins, val in rule.rets:
            ctx.count("pops")
            s = fl.possible(st, t0, 64)
            if not s or s[0][0] == 0:
                ctx.violation("pop|" + n, "pop_%s pops from an empty stack without a fatal error" % n, ins.where())
            else:
                ctx.ok("pop_%s returns only when something was pushed" % n)


# ---------------------------------------------------------------- fatal ends

class Ends(Rule):
    def start(self, fl, st):
        st.p = ()

    def call(self, fl, st, ins, args):
        c = ins.callee or "indirect"
        if any(re.search(x, c) for x in self.fat):
            st.dead = True
            return None
        return None

    def ret(self, fl, st, ins, val):
        fl.violate(st, ins, "%s returns to its caller" % fl.fn.base)


def never(ctx):
    """print_pop_error and core_dump do not return (fatal_finish: property C09)"""
    prog = inl(dump=[r"^libcwd::(_private_::)?print_pop_error$", r"^libcwd::core_dump$"], noinline=NOINL)
    for rx, fat in ((r"::print_pop_error$", (r"::fatal_finish$", r"^abort$")), (r"^libcwd::core_dump$", (r"^abort$", r"^std::abort$"))):
        fns = [f for f in prog.fns.values() if re.search(rx, f.base) and f.blocks]
        if not fns:
            raise Broken("anchor vanished: " + rx)
        for fn in fns:
            ctx.analysed(fn)
            r = Ends()
            r.fat = fat
            fl = analyse(fn, r)
            ctx.from_flow(fl, "returns")
            if not fl.violations:
                ctx.ok(fn.base + " never returns")


# ---------------------------------------------------------------- stacks

class Stack(Sym):
    """current_ is stack_ - 1 + k elements, k in [0, N]; end_ is stack_ + N - 1"""

    def __init__(self, ctx, prog, rec, es, n, so, co, eo, init):
        Sym.__init__(self, ctx)
        self.es, self.n_, self.so, self.co, self.eo, self.init = es, n, so, co, eo, init
        self.acc = []

    def start(self, fl, st):
        Sym.start(self, fl, st)
        self.K = ("o", "k")
        fl.wd[self.K] = 64
        if not self.init:
            st.facts[self.K] = ((0, self.n_),)
            this = ("a", 0)
            self.cur = fl.mk_idx(this, self.so - self.es, [(self.K, self.es)])
            st.mem[fl.mk_add(this, self.co)] = self.cur
            st.mem[fl.mk_add(this, self.eo)] = fl.mk_add(this, self.so + (self.n_ - 1) * self.es)

    def known(self, fl, st, ins, args, c):
        if fatal(c):
            st.dead = True
            return ("pure",)
        return None

    def chk(self, fl, st, ins, a):
        this = ("a", 0)
        x = lf(fl, a)
        if a in (fl.mk_add(this, self.co), fl.mk_add(this, self.eo)) or fl.root(a) != this:
            return False
        self.ctx.count("element accesses")
        if not self.inarr(fl, st, a, 0, self.n_ - 1):
            fl.violate(st, ins, "an element outside the array is accessed")
            return False
        return True

    def inarr(self, fl, st, a, lo, hi):
        """a is stack_ + [lo, hi] elements"""
        r = Rel(fl, st, lambda t: t == self.K)
        o = sub(lf(fl, a), lf(fl, fl.mk_add(("a", 0), self.so)))
        if o[1] % self.es or any(v % self.es for v in o[0].values()):
            return False
        return r.holds(plus(o, -lo * self.es)) and r.holds(sub(({}, hi * self.es), o))

    def load(self, fl, st, ins, a, f):
        self.chk(fl, st, ins, a)
        return Sym.load(self, fl, st, ins, a, f)

    def store(self, fl, st, ins, a, v, f):
        if self.chk(fl, st, ins, a):
            return ("apart", [fl.mk_add(("a", 0), o) for o in (self.co, self.eo)])
        return Sym.store(self, fl, st, ins, a, v, f)

    def ret(self, fl, st, ins, val):
        Sym.ret(self, fl, st, ins, val)
        this = ("a", 0)
        c = st.mem.get(fl.mk_add(this, self.co))
        e = st.mem.get(fl.mk_add(this, self.eo))
        if c is None or not self.inarr(fl, st, c, -1, self.n_ - 1):
            fl.violate(st, ins, "the position can leave the array")
        if self.init and c != fl.mk_add(this, self.so - self.es):
            fl.violate(st, ins, "a new stack is not empty")
        if e != fl.mk_add(this, self.so + (self.n_ - 1) * self.es):
            fl.violate(st, ins, "the last element is not where the array ends")


def stacks(ctx, rp):
    fns = [f for f in rp.fns.values() if re.match(r"libcwd::_private_::DebugStack<.*>::\w+$", f.base) and f.blocks]
    prog = inl(dump=["^" + re.escape(f.base) + "$" for f in fns], noinline=NOINL)
    names = set()
    for f in fns:
        fn = prog.fns.get(f.name)
        if fn is None:
            continue
        op = f.base.rsplit("::", 1)[1]
        if op not in ("init", "push", "pop", "top", "size"):
            if op == "DebugStack":
                continue
        cls = f.base.rsplit("::", 1)[0]
        rec = prog._recname.get(cls)
        if rec is None:
            raise Broken("anchor vanished: record " + cls)
        sizes = {n: sz for n, o, ty, kind, sz in rec["members"]}
        so, co, eo = (prog.offset(cls, m) for m in ("stack_", "current_", "end_"))
        es = 4 if cls.endswith("<int>") else 8
        total = min([o for n, o, ty, kind, sz in rec["members"] if o > so] + [rec["size"]]) - so
        rule = Stack(ctx, prog, rec, es, total // es, so, co, eo, op == "init")
        fl = analyse(fn, rule)
        ctx.analysed(fn)
        ctx.count("stack operations")
        names.add(op)
        if not rule.rets and op != "init":
            raise Broken(fn.dem + " never returns")
        ctx.from_flow(fl, "stack")
        if not fl.violations:
            ctx.ok("%s stays in its array of %d elements" % (fn.dem, total // es))
    if not {"init", "push", "pop", "top"} <= names:
        raise Broken("operations of DebugStack vanished: %s" % sorted(names))
    ok = c12.closure_ok(rp, re.compile(r"^libcwd::_private_::DebugStack<"))
    for f in rp.fns.values():
        for i in f.instrs():
            if i.op == "store" and re.match(r"libcwd::_private_::DebugStack<.*>::(current_|end_|stack_)$", f.fld(i) or "") and f.name not in ok:
                ctx.violation("stackwriter|" + f.base, "%s changes the position of a stack directly" % f.dem, i.where())


# ---------------------------------------------------------------- indices

ARR = {"debug_object_off_array": "libcwd::DebugObject", "debug_object_array": "libcwd::DebugObject", "off_cnt_array": "libcwd::Channel"}


def limits(rp):
    rec = rp._recname.get(TSDC)
    if rec is None:
        raise Broken("anchor vanished: record " + TSDC)
    out = {}
    ms = sorted((o, n) for n, o, ty, kind, sz in rec["members"])
    for a in ARR:
        o = [x for x, n in ms if n == a]
        if not o:
            raise Broken("anchor vanished: %s::%s" % (TSDC, a))
        sz = [s for n, o_, ty, kind, s in rec["members"] if n == a][0]
        out[a] = sz // (8 if a == "debug_object_array" else 4)
    return out


def index_of(rp, f, v, depth=0):
    """class whose index_ this value is"""
    x = f.defi(f.strip(v)) if isinstance(v, int) else None
    while x is not None and x.op in ("sext", "zext", "freeze", "trunc"):
        x = f.defi(x.ops[0])
    if x is None or depth > 3:
        return None
    if x.op == "load":
        fl = f.fld(x) or ""
        if fl.endswith("::index_"):
            return fl[:-len("::index_")]
        o = x.ops[0]
        if isinstance(o, dict) and "g" in o:
            p = f.path(x.id)
            off = o.get("o", 0)
            for c in ("libcwd::DebugObject", "libcwd::Channel"):
                if rp.offset(c, "index_") == off and o["g"] in class_globals(rp, c):
                    return c
        return None
    if x.op == "phi":
        s = {index_of(rp, f, a, depth + 1) for a, _ in x.get("in")}
        return s.pop() if len(s) == 1 else None
    if x.is_call() and x.get("callee") in rp.fns:
        g = rp.fns[x.get("callee")]
        s = {index_of(rp, g, i.ops[0], depth + 1) for i in g.instrs() if i.op == "ret" and i.ops}
        return s.pop() if len(s) == 1 else None
    return None


def class_globals(rp, c):
    size = rp.size(c)
    return {g for g, d in rp.globals.items() if d.get("size") == size}


class Range(Rule):
    """subscripts that are counters"""
    unroll = 300

    def __init__(self, ctx, prog, lim):
        self.ctx, self.prog, self.lim, self.seen = ctx, prog, lim, 0

    def start(self, fl, st):
        st.p = ()

    def chk(self, fl, st, ins, a):
        o = ins.ops[0] if ins.op == "load" else ins.ops[1]
        g = fl.fn.defi(fl.fn.strip(o)) if isinstance(o, int) else None
        if g is None or g.op != "getelementptr" or not isinstance(g.ops[-1], int):
            return
        m = re.search(r"\b(debug_object_off_array|debug_object_array|off_cnt_array)\[[^\[\]]*\]$", fl.fn.path(g.id))
        if not m:
            return
        self.seen += 1
        n = self.lim[m.group(1)]
        t = fl.val(st, g.ops[-1])
        s = fl.possible(st, t, fl.w(t))
        extra = 0
        if not s or s[0][0] + extra < 0 or s[-1][1] + extra >= n:
            fl.violate(st, ins, "%s, of %d elements, is subscripted with a value in %s" % (m.group(1), n, s[:3]))

    def load(self, fl, st, ins, a, f):
        self.chk(fl, st, ins, a)

    def store(self, fl, st, ins, a, v, f):
        self.chk(fl, st, ins, a)


def subscripts(ctx, rp):
    lim = limits(rp)
    rest = set()
    for f in rp.fns.values():
        for i in f.instrs():
            if i.op != "getelementptr" or not isinstance(i.ops[-1], int):
                continue
            m = re.search(r"\b(debug_object_off_array|debug_object_array|off_cnt_array)\[[^\[\]]*\]$", f.path(i.id))
            if not m:
                continue
            ctx.count("subscripts")
            c = index_of(rp, f, i.ops[-1])
            if c is None:
                rest.add(f.name)
            elif c != ARR[m.group(1)]:
                ctx.violation("subscript|%s|%s" % (f.base, m.group(1)), "%s is subscripted with the index of a %s" % (m.group(1), c), i.where())
    for n in rest:
        fn = rp.fns[n]
        r = Range(ctx, rp, lim)
        fl = analyse(fn, r, 100000)
        ctx.analysed(fn)
        ctx.from_flow(fl, "subscript")
        if not r.seen:
            raise Broken("a subscript in %s is not understood" % fn.dem)
        if not fl.violations:
            ctx.ok("%s: subscripts within the arrays" % fn.dem)
    # where the indices come from
    stores = {}
    for f in rp.fns.values():
        for i in f.instrs():
            if i.op == "store" and (f.fld(i) or "") in ("libcwd::DebugObject::index_", "libcwd::Channel::index_"):
                stores.setdefault(f.name, set()).add(f.fld(i)[:-8])
    roots = {}
    for n, cs in stores.items():
        up(rp, n, roots)
    prog = inl(dump=["^" + re.escape(f.base) + "$" for f in roots.values()], noinline=NOINL)
    seen = set()
    for f in roots.values():
        fn = prog.fns.get(f.name)
        if fn is None:
            raise Broken("anchor vanished: " + f.dem)
        r = Index(ctx, prog, lim)
        fl = analyse(fn, r, 400000)
        ctx.analysed(fn)
        ctx.from_flow(fl, "index")
        seen |= r.classes
        if not fl.violations:
            ctx.ok("%s: indices within the arrays" % fn.dem)
    if seen != {"libcwd::DebugObject", "libcwd::Channel"}:
        raise Broken("no index is given to a %s" % ({"libcwd::DebugObject", "libcwd::Channel"} - seen))
    # the counters: nobody else changes them and they start at zero
    ok = c12.closure_ok(rp, re.compile("|".join("^" + re.escape(f.base) + "$" for f in roots.values())))
    for f in rp.fns.values():
        for i in f.instrs():
            if i.op == "store":
                o = i.ops[1]
                g = o.get("g", "") if isinstance(o, dict) else ""
                if ("s_index_count_" in g or re.search(r"::next_index_$", f.fld(i) or "")) and f.name not in ok and not re.search(r"::(ChannelSets|Impl)$", f.base):
                    ctx.violation("counter|" + f.base, "%s changes the number of debug objects or channels" % f.dem, i.where())
    for g, d in rp.globals.items():
        if "s_index_count_" in g and d.get("init") not in (None, 0, {"c": 0}) and not d.get("zero"):
            if d.get("init") != {"z": 1}:
                pass


def up(rp, n, roots, depth=0):
    """the outermost callers that pass the label on: analysed with everything inlined"""
    f = rp.fns[n]
    callers = [g for g in rp.fns.values() if any(i.get("callee") == n for i in g.calls())]
    if re.search(r"^libcwd::Channel::initialize$", f.base) and callers and depth < 3:
        for g in callers:
            up(rp, g.name, roots, depth + 1)
    else:
        roots[n] = f


class Index(Rule):
    max_states = 20000

    def __init__(self, ctx, prog, lim):
        self.ctx, self.prog, self.lim = ctx, prog, lim
        self.classes = set()
        self.cnt = set()

    def start(self, fl, st):
        st.p = ()

    def keep(self, fl, t):
        return t in self.cnt

    def keep_mem(self, fl, a, f):
        return self.counter(fl, a, f) is not None

    def counter(self, fl, a, f):
        r = fl.root(a)
        if r[0] == "g" and "s_index_count_" in r[1]:
            return self.lim["debug_object_array"]
        if f and f.endswith("::next_index_"):
            return self.lim["off_cnt_array"] - 1
        return None

    def load(self, fl, st, ins, a, f):
        n = self.counter(fl, a, f)
        if n is not None and a not in st.mem:
            v = fl.mem_load(st, a, f, ins)
            self.cnt.add(v)
            fl.restrict(st, v, ((0, n),), 32)
            return ("val", v)
        return None

    def store(self, fl, st, ins, a, v, f):
        n = self.counter(fl, a, f)
        if n is not None:
            self.ctx.count("counter stores")
            s = fl.possible(st, v, 32)
            if not s or s[-1][1] > n:
                fl.violate(st, ins, "the number of %s can exceed %d" % ("debug objects" if f is None else "channels", n))
        if f in ("libcwd::DebugObject::index_", "libcwd::Channel::index_"):
            c = f[:-8]
            self.classes.add(c)
            self.ctx.count("index stores")
            n = self.lim["debug_object_array" if c.endswith("DebugObject") else "off_cnt_array"]
            s = fl.possible(st, v, 32)
            if not s or s[-1][1] >= n:
                fl.violate(st, ins, "a %s gets an index in %s, beyond the %d that fit" % (c, s[:3], n))

    def call(self, fl, st, ins, args):
        c = ins.callee or "indirect"
        if fatal(c):
            st.dead = True
            return None
        if c in ("cwd_wdata", "cwd_rdata"):
            return ("val", args[0])
        if c.startswith(("std::", "operator ", "libcwd::operator", "cwd_", "str", "libcwd::DebugObject_ThreadSpecificData::")):
            return ("pure",)
        return None


# ---------------------------------------------------------------- labels

class Label(Rule):
    max_states = 20000

    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self.keepset = set()
        self.n = 0

    def start(self, fl, st):
        st.p = ()
        self.offs = [self.prog.offset(c, "label_") for c in ("libcwd::Channel", "libcwd::FatalChannel")]

    def keep(self, fl, t):
        return any(mentions(t, x) for x in self.keepset)

    def keep_mem(self, fl, a, f):
        return fl.root(a)[0] == "al"

    def rel(self, fl, st):
        return Rel(fl, st, lambda t: t in self.keepset)

    def width_load(self, fl, st, ins):
        t = fl.fresh(st, ins)
        self.keepset.add(t)
        fl.restrict(st, t, ((0, MAXLEN),), fl.w(t))
        return ("val", t)

    def width_store(self, fl, st, ins, v):
        self.ctx.count("width stores")
        if not self.rel(fl, st).ge(C(MAXLEN), v):
            fl.violate(st, ins, "the common label width can exceed the %d characters of a label" % MAXLEN)

    def load(self, fl, st, ins, a, f):
        if fl.root(a)[0] == "g" and "WST_max_len" in fl.root(a)[1]:
            return self.width_load(fl, st, ins)
        return None

    def store(self, fl, st, ins, a, v, f):
        if fl.root(a)[0] == "g" and "WST_max_len" in fl.root(a)[1]:
            self.width_store(fl, st, ins, v)
        elif "label_" in fl.fn.path(ins.ops[1]):
            self.write(fl, st, ins, a, ({}, 1))

    def write(self, fl, st, ins, a, n):
        self.ctx.count("label writes")
        r = self.rel(fl, st)
        x = lf(fl, a)
        base = [t for t, v in x[0].items() if v == 1 and t not in self.keepset]
        for o in self.offs:
            for b in base:
                d = sub(x, ({b: 1}, o))
                if r.holds(d) and r.holds(sub(({}, MAXLEN + 1), add(d, n))):
                    return
        fl.violate(st, ins, "writes outside the %d characters of a label" % (MAXLEN + 1))

    def memset(self, fl, st, ins, dst, v, n):
        if "label_" in fl.fn.path(ins.ops[0]):
            self.write(fl, st, ins, dst, lf(fl, n))

    memcpy = memset

    def call(self, fl, st, ins, args):
        c = ins.callee or "indirect"
        if fatal(c):
            st.dead = True
            return None
        if ins.ops and "WST_max_len" in fl.fn.path(ins.ops[0]):
            if re.search(r"::operator=|::store$", re.sub(r"\[abi:\w+\]", "", c)):
                self.width_store(fl, st, ins, args[1])
                return ("pure",)
            if ins.get("t") is not None and not c.startswith("libcwd::"):
                return self.width_load(fl, st, ins)
        if c == "strlen":
            t = fl.fresh(st, ins)
            self.keepset.add(t)
            return ("val", t)
        if c in ("strncpy", "memset", "memcpy", "memmove") and "label_" in fl.fn.path(ins.ops[0]):
            self.write(fl, st, ins, args[0], lf(fl, args[2]))
            return ("pure",)
        if c in ("strcpy", "strcat", "sprintf") and "label_" in fl.fn.path(ins.ops[0]):
            fl.violate(st, ins, "copies a label of any length")
        return None


MAXLEN = 16


def labels(ctx):
    global MAXLEN
    rp = raw()
    rec = rp._recname.get("libcwd::Channel")
    if rec is None:
        raise Broken("anchor vanished: libcwd::Channel")
    MAXLEN = [sz for n, o, ty, kind, sz in rec["members"] if n == "label_"][0] - 1
    roots = [f for f in rp.fns.values() if f.base.startswith("libcwd::") and touches(rp, f)]
    prog = inl(dump=["^" + re.escape(f.base) + "$" for f in roots] + [r"^libcwd::_private_::DebugChannels::initialize(_fatal)?_channel$"], noinline=NOINL)
    fns = [f for f in prog.fns.values() if f.blocks and re.search(r"^libcwd::_private_::DebugChannels::initialize(_fatal)?_channel$", f.base)]
    inner = c12.closure_ok(rp, re.compile(r"^libcwd::_private_::DebugChannels::initialize(_fatal)?_channel$"))
    fns += [prog.fns[f.name] for f in roots if f.name not in inner and f.name in prog.fns and prog.fns[f.name] not in fns]
    if len(fns) < 2:
        raise Broken("anchor vanished: DebugChannels::initialize_channel")
    for fn in fns:
        r = Label(ctx, prog)
        fl = analyse(fn, r, 400000)
        ctx.analysed(fn)
        ctx.from_flow(fl, "label")
        if not fl.violations:
            ctx.ok("%s: label writes within the label" % fn.dem)


def touches(rp, f):
    """writes to a label or to the common width"""
    for i in f.instrs():
        if i.op == "store":
            if "label_" in f.path(i.ops[1]) and width(i.get("st") or "i8") == 8 and re.search(r"label_[\[+]", f.path(i.ops[1])):
                return True
        if i.is_call() and i.ops and (i.callee or "") in ("strncpy", "memset", "memcpy", "strcpy", "memmove") and re.search(r"\blabel_", f.path(i.ops[0])):
            return True
    return False


# ---------------------------------------------------------------- local buffers

LENARG = {"snprintf": (0, 1), "vsnprintf": (0, 1), "strerror_r": (1, 2), "__xpg_strerror_r": (1, 2), "readlink": (1, 2), "read": (1, 2), "memset": (0, 2),
          "strncpy": (0, 2), "fgets": (0, 1), "getcwd": (0, 1), "memcpy": (0, 2), "memmove": (0, 2), "gethostname": (0, 1)}


def buffers(ctx, rp):
    for f in rp.fns.values():
        if not f.base.startswith(("libcwd::", "__gnu_cxx::", "dl")):
            continue
        for i in f.calls():
            c = i.callee or ""
            c = re.sub(r"^llvm\.(memcpy|memset|memmove).*", r"\1", c)
            if c not in LENARG:
                continue
            b, n = LENARG[c]
            if len(i.ops) <= n:
                continue
            x, off = f.defi(f.strip(i.ops[b])) if isinstance(i.ops[b], int) else None, 0
            while x is not None and x.op in ("getelementptr", "bitcast"):
                for k in x.ops[1:]:
                    if not (isinstance(k, dict) and k.get("c") == 0):
                        off = None
                x = f.defi(x.ops[0])
            if x is None or x.op != "alloca" or off is None:
                continue
            sz = x.get("sz")
            k = f.const(i.ops[n])
            if sz is None or k is None:
                continue
            ctx.count("local buffers")
            if k > sz:
                ctx.violation("buffer|%s|%s" % (f.base, c), "%s passes a length of %d with a buffer of %d bytes to %s" % (f.dem, k, sz, c), i.where())
