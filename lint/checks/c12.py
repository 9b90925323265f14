"""Symbolic replay of the memory operations of every string operation, with linear relations between sizes.

For each operation on DebugString (initialisation, assign, append, prepend, reserve, swallow, copy) and for push and pop of
margin and marker, every path is summarised: allocations, reallocations, releases, copies and stores, in order, over terms of
the initial state.  Given that the strings involved satisfy the invariant (block of at least capacity+1 bytes, size <= capacity,
zero at size), every write must lie in its block, the resulting string must satisfy the invariant and consist of
the right pieces, and each block must be released exactly when no string refers to it any more.  Inequalities are decided
from the branches taken by elimination; that calculate_capacity never returns less than its argument is shown
separately.  No other function may store to the members of a string or to the stacks of strings."""
from core import *
from sym import *
from lin import *

FLOORS = {"operations": 8, "paths": 12, "writes in bounds": 14, "released blocks": 4, "member stores in the program": 8}
DS = "libcwd::DebugString"
EL = "libcwd::DebugStringStackElement"
FIELDS = ("str_", "size_", "capacity_", "default_capacity_")
NOINL = [r"DebugString::calculate_capacity$", r"ThreadSpecificData::instance$", r"^libcwd::core_dump$", r"^libcwd::operator<<", r"^std::operator<<",
         r"^libcwd::DebugObject_ThreadSpecificData::(start|finish|fatal_finish)$", r"::NS_init$"]
METHODS = ["NS_internal_init", "internal_assign", "internal_append", "internal_prepend", "reserve", "internal_swallow", "deinitialize"]


class Str(Sym):
    pure = (r"^std::", r"^operator<<", r"^libcwd::operator<<", r"^libcwd::_private_::", r"^libcwd::DebugObject_ThreadSpecificData::start$")

    def known(self, fl, st, ins, args, c):
        if c.endswith("ThreadSpecificData::instance"):
            return ("val", ("o", "tsd"))
        if c.endswith("::fatal_finish") or c in ("libcwd::core_dump", "abort"):
            self.end(fl, st, ins)
            return None
        n = sum(1 for e in st.p[2] if e[0] in ("malloc", "realloc", "cap"))
        if c in ("malloc", "operator new", "operator new[]"):
            t = ("o", "blk%d" % n)
            self.event(st, "malloc", t, args[0])
            return ("val", t)
        if c == "realloc":
            t = ("o", "blk%d" % n)
            self.event(st, "realloc", t, args[1], args[0])
            return ("val", t)
        if c in ("free", "operator delete", "operator delete[]"):
            self.event(st, "free", args[0])
            return ("pure",)
        if c.endswith("DebugString::calculate_capacity"):
            t = ("o", "cap%d" % n)
            self.event(st, "cap", t, args[-1])
            return ("val", t)
        if c in ("strncpy", "memcpy", "memmove"):
            self.event(st, "copy", args[0], args[1], args[2], c)
            return ("val", args[0])
        if c in ("memset",):
            self.event(st, "fill", args[0], args[2])
            return ("val", args[0])
        return None

    def memcpy(self, fl, st, ins, dst, src, n):
        if fl.root(dst)[0] != "al":
            self.event(st, "copy", dst, src, n, "memmove")

    def store(self, fl, st, ins, a, v, f):
        if fl.root(a)[0] != "al" and not f:
            self.event(st, "store", a, v, C(width(self.ty(ins)) // 8))
        return Sym.store(self, fl, st, ins, a, v, f)

    @staticmethod
    def ty(ins):
        o = ins.ops[0]
        if isinstance(o, int):
            x = ins.fn.defi(o)
            return x.get("t") if x is not None else ins.get("st")
        return ins.get("st") or ins.get("vt") or "i8"


def lenish(t):
    """lengths, sizes, capacities and offsets are never negative and small enough not to wrap"""
    return t[0] in ("m0", "m1", "a", "o")


class Replay:
    def __init__(self, ctx, prog, fl, st, name):
        self.ctx, self.prog, self.fl, self.st, self.name = ctx, prog, fl, st, name
        self.off = {f: prog.offset(DS, f) for f in FIELDS}
        self.blocks = {}       # term -> [size lin, live, segments]; segment = (start lin, len lin, tag)
        self.freed = []
        self.errors = []
        self.extra = []
        self.caps = {}
        for e in st.p[2]:
            if e[0] == "cap":
                self.extra.append(sub(lf(fl, e[1]), lf(fl, e[2])))       # result >= argument
        self.rel = None

    def r(self):
        if self.rel is None:
            self.rel = Rel(self.fl, self.st, lenish, self.extra)
        return self.rel

    def initial(self, base, n=None):
        """the string at this address satisfies the invariant"""
        fl = self.fl
        m = lambda f: ("m0", fl.mk_add(base, self.off[f]))
        s, c = lf(fl, m("size_")), lf(fl, m("capacity_"))
        self.extra.append(sub(c, s))
        self.rel = None
        b = m("str_")
        self.blocks[b] = [plus(c, 1), True, [(({}, 0), s, ("old", base)), (s, ({}, 1), ("zero",))]]
        return b, s

    def err(self, msg):
        if msg not in self.errors:
            self.errors.append(msg)

    def at(self, a):
        """(block, offset) of an address"""
        x = lf(self.fl, a)
        for b in self.blocks:
            if x[0].get(b) == 1:
                d = dict(x[0])
                del d[b]
                return b, (d, x[1])
        return None, None

    def inside(self, what, a, n):
        b, o = self.at(a)
        if b is None:
            return None, None
        if not self.blocks[b][1]:
            self.err(what + " a block that was released")
        r = self.r()
        e = add(o, n)
        if not (r.holds(o) and r.holds(sub(self.blocks[b][0], e))):
            self.err(what + " outside its block")
        else:
            self.ctx.count("writes in bounds")
        return b, o

    def write(self, b, o, n, segs):
        """replace what was in [o, o+n) of block b"""
        r = self.r()
        keep = []
        for s in self.blocks[b][2]:
            if r.holds(sub(o, add(s[0], s[1]))) or r.holds(sub(s[0], add(o, n))):
                keep.append(s)
            elif r.holds(sub(o, s[0])) and s[2][0] in ("old", "arg"):
                keep.append((s[0], sub(o, s[0]), s[2]))      # a leading part survives
        self.blocks[b][2] = keep + segs

    def pieces(self, b, o, n, shift):
        r = self.r()
        out = []
        for s in self.blocks[b][2]:
            if r.holds(sub(s[0], o)) and r.holds(sub(add(o, n), add(s[0], s[1]))):
                out.append((add(sub(s[0], o), shift), s[1], s[2]))
        return out

    def run(self):
        fl = self.fl
        for e in self.st.p[2]:
            k = e[0]
            if k == "malloc":
                self.blocks[e[1]] = [lf(fl, e[2]), True, []]
            elif k == "realloc":
                old = self.blocks.get(e[3])
                if old is None:
                    if e[3] != C(0):
                        self.err("reallocates something that is not a block of a string")
                    segs = []
                else:
                    if not old[1]:
                        self.err("reallocates a block that was released")
                    old[1] = False
                    self.blocks[e[1]] = [lf(fl, e[2]), True, []]
                    segs = [s for s in old[2] if self.r().holds(sub(lf(fl, e[2]), add(s[0], s[1])))]
                    self.ctx.count("released blocks")
                self.blocks[e[1]] = [lf(fl, e[2]), True, segs]
            elif k == "free":
                b, o = self.at(e[1])
                if b is not None:
                    if o != ({}, 0):
                        self.err("releases the middle of a block")
                    if not self.blocks[b][1]:
                        self.err("releases a block twice")
                    self.blocks[b][1] = False
                    self.ctx.count("released blocks")
                else:
                    if e[1] in self.freed:
                        self.err("releases a block twice")
                    self.freed.append(e[1])
            elif k == "copy":
                n = lf(fl, e[3])
                sb, so = self.at(e[2])
                if sb is not None and not self.blocks[sb][1]:
                    self.err("reads a block that was released")
                db, do = self.at(e[1])
                if sb is not None:
                    segs = self.pieces(sb, so, n, do) if do is not None else []
                    if e[4] == "strncpy":
                        segs = [(s[0], s[1], ("strn",) + s[2]) for s in segs]
                else:
                    segs = [(do, n, ("arg", e[2]))] if do is not None else []
                b, o = self.inside("copies to", e[1], n)
                if b is not None:
                    self.write(b, o, n, segs)
            elif k == "fill":
                n = lf(fl, e[2])
                b, o = self.inside("writes", e[1], n)
                if b is not None:
                    self.write(b, o, n, [])
            elif k == "store":
                n = lf(fl, e[3])
                b, o = self.inside("writes", e[1], n)
                if b is not None:
                    self.write(b, o, n, [(o, n, ("zero",))] if fl.const_of(self.st, e[2]) == 0 else [])
        return self

    def final(self, base, f):
        fl = self.fl
        a = fl.mk_add(base, self.off[f])
        v = self.st.mem.get(a)
        return v if v is not None else ("m0", a) if a not in self.st.p[0] else None

    def string(self, base, want, what="the string"):
        """the string at base satisfies the invariant and consists of the pieces `want` [(tag, length)]"""
        fl = self.fl
        s, n, c = (self.final(base, f) for f in ("str_", "size_", "capacity_"))
        if s is None or n is None or c is None:
            self.err("leaves %s with unknown members" % what)
            return
        b, o = self.at(s)
        r = self.r()
        if b is None or o != ({}, 0):
            self.err("leaves %s without a block of its own" % what)
            return
        blk = self.blocks[b]
        if not blk[1]:
            self.err("leaves %s in a block that was released" % what)
        if not r.holds(sub(blk[0], plus(lf(fl, c), 1))):
            self.err("leaves %s with a capacity larger than its block" % what)
        if not r.holds(sub(lf(fl, c), lf(fl, n))):
            self.err("leaves %s longer than its capacity" % what)
        tot = ({}, 0)
        for tag, ln in want:
            if not any(self.same(x[0], tot) and self.same(x[1], ln) and (x[2] == tag or tag == "zero" and x[2] == ("zero",)) for x in blk[2]) and not self.same(ln, ({}, 0)):
                self.err("does not leave %s with the right contents" % what)
            tot = add(tot, ln)
        if not self.same(tot, lf(fl, n)):
            self.err("leaves %s with a wrong size" % what)
        if not any(x[2] == ("zero",) and self.same(x[0], lf(fl, n)) for x in blk[2]):
            self.err("leaves %s without terminating zero at its end" % what)
        return b

    def same(self, x, y):
        if x == y:
            return True
        r = self.r()
        return r.holds(sub(x, y)) and r.holds(sub(y, x))

    def lost(self, *kept):
        for b, v in self.blocks.items():
            if v[1] and b not in kept:
                self.err("loses a block")


def run(ctx):
    prog = inl(dump=[r"^libcwd::DebugString::(%s|calculate_capacity)$" % "|".join(METHODS), r"^libcwd::DebugObject::(push|pop)_(margin|marker)$", r"^w_ds_"],
               noinline=NOINL, witnesses=["dstring.cc"])
    capacity(ctx, prog)
    for m in METHODS:
        one(ctx, prog, prog.one("libcwd::DebugString::" + m), m)
    one(ctx, prog, prog.one("w_ds_element"), "copy")
    for n in ("margin", "marker"):
        for op in ("push", "pop"):
            one(ctx, prog, prog.one("libcwd::DebugObject::%s_%s" % (op, n)), op, n)
    callers(ctx, prog)
    writers(ctx, prog)


def one(ctx, prog, fn, m, which=None):
    ctx.analysed(fn)
    ctx.count("operations")
    rule = Str(ctx)
    fl = analyse(fn, rule)
    this = ("a", 0)
    if not rule.rets:
        raise Broken("%s never returns" % fn.dem)
    for st, ins, val in rule.rets:
        ctx.count("paths")
        if st.p[1]:
            raise Broken("%s makes a call that the rule does not know: %s" % (fn.dem, [e[0] for e in st.p[2]][-3:]))
        R = Replay(ctx, prog, fl, st, m)
        if m == "NS_internal_init":
            R.run()
            R.lost(R.string(this, [(("arg", ("a", 1)), lf(fl, ("a", 2)))]))
        elif m == "deinitialize":
            b, s = R.initial(this)
            R.run()
            if R.final(this, "str_") != C(0):
                R.err("keeps a pointer to the released block")
            R.lost()
        elif m == "internal_swallow":
            b, s = R.initial(this)
            src = ("a", 1)
            b2, s2 = R.initial(src)
            R.run()
            R.lost(R.string(this, [(("old", src), s2)]))
            keepdef(R, this, src)
        elif m in ("internal_assign", "internal_append", "internal_prepend", "reserve"):
            b, s = R.initial(this)
            R.run()
            old = (("old", this), s)
            arg = (("arg", ("a", 1)), lf(fl, ("a", 2)))
            R.lost(R.string(this, {"internal_assign": [arg], "internal_append": [old, arg], "internal_prepend": [arg, old], "reserve": [old]}[m]))
            if m == "reserve" and not R.r().ge(R.final(this, "capacity_"), ("a", 1)):
                R.err("does not reserve the requested size") if not R.r().ge(lf(fl, ("m0", fl.mk_add(this, R.off["size_"]))), ("a", 1)) else None
        elif m == "copy":
            src = ("a", 1)
            o = prog.offset(EL, "debug_string")
            b, s = R.initial(src)
            R.run()
            n = R.string(fl.mk_add(this, o), [(("old", src), s)], "the copy")
            unchanged(R, src)
            R.lost(n, b)
            if n == b:
                R.err("shares the block of the original")
        else:
            pushpop(ctx, prog, fl, st, R, m, which)
        for e in R.errors:
            ctx.violation("%s|%s" % (fn.base, e), "%s %s" % (fn.base, e), ins.where())
        if not R.errors:
            ctx.ok("%s: a path of %d operations" % (fn.base, len(st.p[2])))


def unchanged(R, base):
    if any(R.fl.mk_add(base, o) in R.st.p[0] for o in R.off.values()):
        R.err("changes the original string")
    b = ("m0", R.fl.mk_add(base, R.off["str_"]))
    if not R.blocks[b][1] or len(R.blocks[b][2]) < 2:
        R.err("changes the original string")


def keepdef(R, dst, src):
    for f in ("default_capacity_",):
        if R.final(dst, f) is None:
            R.err("leaves %s undefined" % f)


def own(prog, fl, st):
    """address of the data of this debug object of this thread"""
    ix = ("m0", fl.mk_add(("a", 0), prog.offset("libcwd::DebugObject", "index_")))
    return ("m0", fl.mk_idx(("o", "tsd"), prog.offset("libcwd::_private_::ThreadSpecificData", "debug_object_array"), [(ix, 8)]))


def pushpop(ctx, prog, fl, st, R, m, which):
    D = "libcwd::DebugObject_ThreadSpecificData"
    d = own(prog, fl, st)
    cur = fl.mk_add(d, prog.offset(D, which))
    top = fl.mk_add(d, prog.offset(D, which + "_stack"))
    t0 = ("m0", top)
    nx = prog.offset(EL, "next")
    so = prog.offset(EL, "debug_string")
    new = st.mem.get(top, t0)
    if m == "push":
        b, s = R.initial(cur)
        R.run()
        blk = R.blocks.get(new)
        if blk is None or new == t0:
            R.err("does not put a new element on the stack")
            return
        if not R.r().holds(plus(blk[0], -prog.size(EL))):
            R.err("allocates too little memory for an element of the stack")
        if st.mem.get(fl.mk_add(new, nx)) != t0:
            R.err("loses the elements that were on the stack")
        n = R.string(fl.mk_add(new, so), [(("old", cur), s)], "the element on the stack")
        unchanged(R, cur)
        if n == b:
            R.err("shares the block of the current string")
        R.lost(n, b, new)
    else:
        el = fl.mk_add(t0, so)
        b, s = R.initial(cur)
        b2, s2 = R.initial(el)
        R.run()
        if new != ("m0", fl.mk_add(t0, nx)):
            R.err("does not take exactly one element from the stack")
        R.lost(R.string(cur, [(("old", el), s2)], "the current string"))
        if R.freed != [t0]:
            R.err("does not release the element of the stack exactly once")
        f = R.final(cur, "default_capacity_")
        if f != ("m0", fl.mk_add(el, R.off["default_capacity_"])):
            R.err("does not restore the reserved size")
        if fl.possible(st, t0, 64)[0][0] == 0:
            R.err("pops from an empty stack")


def capacity(ctx, prog):
    """calculate_capacity(size) returns at least size"""
    fn = prog.one("libcwd::DebugString::calculate_capacity")
    ctx.analysed(fn)

    class Cap(Rule):
        bad = []
        n = 0
        arg = ("a", len(fn.args) - 1)

        def start(self, fl, st):
            st.p = ()

        def keep(self, fl, t):
            return True

        def ret(self, fl, st, ins, val):
            Cap.n += 1
            r = Rel(fl, st, lambda t: True)
            if not r.ge(val, self.arg):
                fl.violate(st, ins, "calculate_capacity can return less than the size asked for")
    fl = analyse(fn, Cap())
    if not Cap.n:
        raise Broken("calculate_capacity never returns")
    ctx.from_flow(fl, "capacity")
    if not fl.violations:
        ctx.ok("calculate_capacity never returns less than its argument")


def callers(ctx, prog):
    """what the strings are initialised with lies in memory: a literal of the given length"""
    rp = raw()
    for f in rp.fns.values():
        for i in f.calls(r"DebugString::NS_internal_init$"):
            s, n = i.fn.string(i.ops[1]), i.ops[2]
            if s is not None:
                k = i.fn.const(n)
                ctx.count("initial strings")
                if k is None or k > len(s):
                    ctx.violation("init|" + f.base, "%s initialises a string with %s characters of the literal %r" % (f.dem, k, s), i.where())


def writers(ctx, prog):
    """nobody else stores to the members of a string or to the stacks"""
    rp = raw()
    D = "libcwd::DebugObject_ThreadSpecificData"
    okm = re.compile(r"^libcwd::DebugString::|^libcwd::DebugObject::(push|pop)_(margin|marker)$|^libcwd::DebugObject_ThreadSpecificData::(init|~?DebugObject_ThreadSpecificData)$")
    allowed = closure_ok(rp, okm)
    for f in rp.fns.values():
        for i in f.instrs():
            if i.op != "store":
                continue
            p = f.fld(i) or ""
            if p.startswith(DS + "::") or p in (D + "::margin_stack", D + "::marker_stack"):
                ctx.count("member stores in the program")
                if f.name not in allowed:
                    ctx.violation("writer|" + f.base, "%s changes %s directly" % (f.dem, p), i.where())


def closure_ok(rp, rx):
    """the operations and the helpers that only they call"""
    out = {f.name for f in rp.fns.values() if rx.search(f.base)}
    callers = {}
    for f in rp.fns.values():
        for i in f.calls():
            if i.get("callee"):
                callers.setdefault(i.get("callee"), set()).add(f.name)
    change = True
    while change:
        change = False
        for f in rp.fns.values():
            if f.name not in out and callers.get(f.name) and callers[f.name] <= out:
                out.add(f.name)
                change = True
    return out
