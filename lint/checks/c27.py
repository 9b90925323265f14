"""The demangler writes only within its buffers and indexes only within its tables.

Every load, store and copy whose address lies in a constant table, a local array or a number of the floating point printer is
enumerated; on every path the offset must be inside the object.  The numbers' loops have constant bounds and are followed
completely.  What the literal printer writes is compared with the size of the buffer that it gets, what it reads with what
was stored for each size of literal that is asked for.  Elements of the lists of substitutions and template arguments are
taken only after the index was compared with the size of that list.  The length of a name does not overflow."""
from core import *
from demangle import *
from flow import mentions, NEG

FLOORS = {"functions": 25, "accesses to tables and arrays": 40, "list elements": 2, "sizes of literals": 2, "lengths": 2}
TECHNIQUE = "interval analysis of every table and buffer access, constant loops followed completely, extents as summaries of the callees"
B = "__gnu_cxx::demangler::"
DF = "(anonymous namespace)::decimal_float::"
LIST = re.compile(r"std::vector<.*>::(operator\[\]|at|back|front|size|empty|push_back|pop_back|emplace_back|clear|resize|erase|insert)$")
SMALL = ((0, 1 << 30),)


class Bound(Rule):
    max_states = 6000
    unroll = 400
    affine = 400
    same_base = True
    numbers = False                         # only constants matter
    obj = None

    def __init__(self, prog, ctx, fn, sizes=None, consts=None, ext=None, facts=None):
        self.prog, self.ctx, self.fn = prog, ctx, fn
        self.sizes = {("a", k): v for k, v in (sizes or {}).items()}
        self.consts = consts or {}
        self.ext = ext or {}                # what functions access: name -> {argument: bytes}
        self.bad = {}
        self.facts = facts or {}
        self.extent = {}                    # argument -> bytes accessed
        self.calls = []
        self.low = {}
        self.blur = {i.id for b in fn.order for i in fn.blocks[b] if i.op == "phi" and self.data(i)}

    def data(self, phi):
        """a number at the start of a loop that comes from outside, or is used for no decision in that loop"""
        fn = self.fn
        if phi.get("t") != "i32":
            return False
        b = phi.bb
        loop = self.loop(b)
        if len(loop) < 2:
            return False
        seen, work = {phi.id}, [phi.id]
        inits = [v for v, pb in phi.get("in") if pb not in loop]
        def outside(v, d=0):
            if not isinstance(v, int):
                return False
            if v < len(fn.args):
                return True
            x = fn.ins[v]
            return d < 9 and x.op == "phi" and any(outside(u, d + 1) for u, pb in x.get("in") if u != v)
        if any(outside(v) for v in inits):
            return True
        while work:
            v = work.pop()
            for x in fn.instrs():
                if x.bb in loop and x.id not in seen and (v in [o for o in x.ops if isinstance(o, int)] or x.op == "phi" and v in [u for u, pb in x.get("in")]):
                    if x.op in ("icmp", "switch", "getelementptr", "call"):
                        return False
                    seen.add(x.id)
                    if x.op in ("phi", "add", "sub", "select"):
                        work.append(x.id)
        return True

    def loop(self, h):
        """the blocks of the loops with head h"""
        fn = self.fn
        order = {b: k for k, b in enumerate(fn.rpo())}
        s = {h}
        work = [p for p in fn.preds[h] if order[p] >= order[h]]
        while work:
            b = work.pop()
            if b not in s:
                s.add(b)
                work += fn.preds[b]
        return s

    def edge(self, fl, st, src, dst):
        for i in self.fn.blocks[dst]:
            if i.op != "phi":
                break
            if i.id in self.blur and self.climbs(i):
                for v, b in i.get("in"):
                    if b == src and b not in self.loop(dst):
                        lo = self.range(fl, st, fl.val(st, v))[0]
                        self.low[i.id] = min(lo, self.low.get(i.id, lo))

    def opaque(self, fl, st, k, t):
        if k in self.low and k in self.blur and fl.w(t) == 32 and self.low[k] >= 0:
            st.facts[t] = ((self.low[k], (1 << 31) - 1),)

    def climbs(self, phi):
        """only ever gets larger"""
        seen = {phi.id}

        def up(v):
            if isinstance(v, int) and v in seen:
                return True
            if not isinstance(v, int) or v < len(self.fn.args):
                return False
            seen.add(v)
            x = self.fn.ins[v]
            if x.op == "phi":
                return all(up(u) for u, pb in x.get("in"))
            return x.op == "add" and isinstance(x.ops[1], dict) and 0 <= x.ops[1].get("c", -1) < 1 << 31 and up(x.ops[0])
        inside = self.loop(phi.bb)
        return all(up(v) for v, pb in phi.get("in") if pb in inside)

    def start(self, fl, st):
        st.p = ((),)
        for k, v in self.facts.items():
            st.facts[("a", k)] = v
        for k, v in self.consts.items():
            st.env[k] = C(v)

    def keep(self, fl, t):
        return False

    def fold(self, fl, st, b):
        if self.numbers and b in fl.headers:
            st.facts = {t: f for t, f in st.facts.items() if t[0] == "a" or t[0] == "i" and t[1] in self.low}
            st.kb, st.mem = {}, {}

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), list(st.trail)))

    def size(self, t):
        if t[0] == "g":
            g = self.prog.globals.get(t[1])
            if g is None:
                s = strings(self.prog).get(t[1])
                return len(s) + 1 if s is not None else None
            return g.get("size") if g.get("const") and re.match(r"<?\{?\s*\[|\[", str(g.get("type"))) else None
        if t[0] == "al":
            i = self.fn.ins.get(t[1])
            return i.get("sz") if i is not None and (str(i.get("at")).startswith("[") or "decimal_float" in str(i.get("at"))) else None
        return self.sizes.get(t)

    def offset(self, fl, st, a):
        """(root, smallest offset, largest offset)"""
        x = lin.lf(fl, a)
        base = [t for t, c in x[0].items() if c == 1 and (t[0] in ("g", "al") or t in self.sizes or self.arg(t))]
        if len(base) != 1:
            return None
        lo = hi = x[1]
        for t, c in x[0].items():
            if t == base[0]:
                continue
            f = self.range(fl, st, t)
            lo += min(f[0] * c, f[1] * c)
            hi += max(f[0] * c, f[1] * c)
        return base[0], lo, hi

    def arg(self, t):
        return t[0] == "a" and self.fn.args[t[1]][1] == "ptr"

    def range(self, fl, st, t):
        w = fl.w(t)
        if t[0] == "op" and t[1] == "sdiv" and t[3][0] == "c" and t[3][1] > 0:
            r = self.range(fl, st, t[2])
            return tuple(abs(x) // t[3][1] * (1 if x >= 0 else -1) for x in r)
        if t[0] == "op" and t[1] == "sub":
            a, b = self.range(fl, st, t[2]), self.range(fl, st, t[3])
            if a[0] - b[1] >= -(1 << w - 1) and a[1] - b[0] < 1 << w - 1:
                return (a[0] - b[1], a[1] - b[0])
        if t[0] == "sext":
            return self.range(fl, st, t[2])
        u = t
        f = fl.possible(st, u, w)
        if not f:
            return (0, 0)
        if f[-1][1] >= 1 << (w - 1) and w < 64 or w == 64 and f[-1][1] >= 1 << 63:
            h = 1 << (w - 1)
            vs = [(a, b) for a, b in f]
            lo = min(a - (1 << w) if a >= h else (-h if b >= h else a) for a, b in vs)
            hi = max(b - (1 << w) if a >= h else min(b, h - 1) for a, b in vs)
            return (lo, hi)
        return (f[0][0], f[-1][1])

    def access(self, fl, st, ins, a, n, what):
        r = fl.root(a)
        o = self.offset(fl, st, a)
        if o is None:
            if self.size(r) is not None:
                self.report(st, ins, "%s an unknown place of %s" % (what, self.name(r)))
            return
        r, lo, hi = o
        s = self.size(r)
        if s is None:
            if self.arg(r):
                self.extent[r[1]] = max(self.extent.get(r[1], 0), hi + n)
                if lo < 0:
                    self.report(st, ins, "%s before %s" % (what, self.name(r)))
            return
        self.ctx.count("accesses to tables and arrays")
        if self.numbers and n == 8 and s == self.obj:
            s -= 8                          # the digits come first, the exponent behind them
        if lo < 0 or hi + n > s:
            self.report(st, ins, "%s %s outside its %d bytes (%s)" % (what, self.name(r), s, "byte %d" % lo if lo == hi else "bytes %d to %d" % (lo, hi)))

    def name(self, t):
        if t[0] == "g":
            return (self.prog.globals.get(t[1]) or {}).get("dem", t[1]).split("::")[-1]
        if t[0] == "al":
            return "local array %s" % (self.fn.ins[t[1]].get("nm") or "")
        return "what %s refers to" % (self.fn.args[t[1]][0] or "argument %d" % t[1])

    def load(self, fl, st, ins, a, f):
        self.access(fl, st, ins, a, max(width(ins.get("t")) // 8, 1), "reads")
        return None

    def store(self, fl, st, ins, a, v, f):
        w = fl.w(v) if v[0] != "c" else self.cw(ins)
        self.access(fl, st, ins, a, max(w // 8, 1), "writes")
        return None

    def cw(self, ins):
        o = ins.ops[0]
        if isinstance(o, int):
            x = self.fn.ins.get(o)
            return width(x.get("t")) if x is not None else width(self.fn.args[o][1]) if o < len(self.fn.args) else 64
        t = ins.get("st") or ins.get("vt")
        if t:
            return width(t)
        return o.get("w", 8) if isinstance(o, dict) else 8

    def end(self, fl, st, ins):
        st.dead = True

    def call(self, fl, st, ins, args):
        c = ins.callee or "indirect"
        m = LIST.match(c)
        if m:
            k = m.group(1)
            if k == "size":
                t = fl.fresh(st, ins)
                fl.wd[t] = 64
                st.p = (tuple(x for x in st.p[0] if x[0] != args[0]) + ((args[0], t),),) + st.p[1:]
                return ("val", t)
            if k in ("operator[]", "at"):
                self.ctx.count("list elements")
                if not any(v == args[0] and fl.decide(st, fl.mk_icmp("ult", args[1], t, 64)) is True for v, t in st.p[0]):
                    self.report(st, ins, "takes an element of a list without comparing the index with its size")
            elif k not in ("back", "front", "empty"):
                st.p = (tuple(x for x in st.p[0] if x[0] != args[0]),) + st.p[1:]
        elif re.search(r"session<.*>::decode_|::decode_qualifiers$|::add_substitution$", c):
            st.p = ((),) + st.p[1:]
        if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove") or c in ("memcpy", "memmove", "memset") or c.startswith("llvm.memset"):
            n = fl.possible(st, args[2], 64)
            n = n[-1][1] if n else 0
            if n < 1 << 20:
                self.access(fl, st, ins, args[0], n, "writes")
                if "memset" not in c:
                    self.access(fl, st, ins, args[1], n, "reads")
            else:
                for a in args[:2]:
                    if self.size(fl.root(a)) is not None:
                        self.report(st, ins, "copies an unknown number of bytes")
        elif c in ("strcpy", "strcat", "stpcpy"):
            s = strings(self.prog).get(args[1][1]) if args[1][0] == "g" else None
            if s is None or c == "strcat":
                self.report(st, ins, "copies an unknown string")
            else:
                self.access(fl, st, ins, args[0], len(s) + 1, "writes")
        elif c in ("sprintf", "vsprintf", "gets", "scanf", "sscanf"):
            self.report(st, ins, "prints into a buffer without a limit")
        elif c in ("snprintf", "strncpy"):
            n = fl.possible(st, args[1 if c == "snprintf" else 2], 64)[-1][1]
            self.access(fl, st, ins, args[0], n, "writes")
        else:
            self.calls.append((c, args, {k: fl.possible(st, a, 64) for k, a in enumerate(args)}, ins))
            e = self.ext.get(c)
            for k, n in (e or {}).items():
                if k < len(args):
                    self.access(fl, st, ins, args[k], n, "lets %s use" % c.split("::")[-1])
        if re.match(r"llvm\.(lifetime|dbg|experimental|assume)", c):
            return ("pure",)
        return self.result(fl, st, ins, args, c)

    def result(self, fl, st, ins, args, c):
        return None


class Digits(Bound):
    """the length of a name: an accumulated number must not overflow"""
    unroll = 2
    affine = 4

    def __init__(self, *a, **k):
        Bound.__init__(self, *a, **k)
        self.inv = {i.id: True for i in self.fn.instrs() if i.op == "phi" and i.get("t") == "i32"}

    def opaque(self, fl, st, k, t):
        if self.inv.get(k) and self.scaled(k):
            st.facts[t] = ((0, (1 << 31) - 1),)

    def scaled(self, k):
        """does the phi go around a loop through a multiplication?"""
        return k in self.acc

    def find(self):
        self.acc = {}
        for i in self.fn.instrs():
            if i.op == "mul" and i.get("t") == "i32" and any(isinstance(o, dict) for o in i.ops):
                x = self.fn.defi([o for o in i.ops if isinstance(o, int)][0]) if any(isinstance(o, int) for o in i.ops) else None
                if x is not None and x.op == "phi":
                    self.acc[x.id] = i
        return self.acc

    def edge(self, fl, st, src, dst):
        for i in self.fn.blocks[dst]:
            if i.op != "phi":
                break
            if i.id not in self.acc:
                continue
            for v, b in i.get("in"):
                if b != src:
                    continue
                t = fl.val(st, v)
                x = lin.lf(fl, t)
                hi = lo = x[1]
                for u, c in x[0].items():
                    f = self.range(fl, st, u)
                    hi += max(f[0] * c, f[1] * c)
                    lo += min(f[0] * c, f[1] * c)
                self.ctx.count("lengths")
                if hi >= 1 << 31:
                    self.bad.setdefault("the length of a name can overflow (up to %d)" % hi, (self.acc[i.id].where(), list(st.trail)))


PRECISION = (1, 17)                         # of the numbers that are printed: what their 20 digits are good for


def run(ctx):
    prog = program([r"__gnu_cxx::demangler::", r"^libcwd::_private_::(demangle_(symbol|type)|implementation_details)", r"anonymous namespace.::(decimal_float|print_IEEE)"],
                   [r"^libcwd::_private_::demangle_(type|symbol)$", r"decimal_float::(?!set_)", r"print_IEEE_fp$"])
    size = 0
    for fn in prog.fns.values():
        for i in fn.instrs():
            if i.op == "alloca" and "decimal_float" in str(i.get("at")):
                size = i.get("sz")
    if not size:
        raise Broken("anchor vanished: a local decimal_float")
    done = set()

    def report(fn, r, why=""):
        ctx.analysed(fn)
        for msg, (w, p) in r.bad.items():
            ctx.violation("bounds|%s|%s" % (fn.base, msg), "%s %s%s" % (fn.base.replace(S, ""), msg, why), w, p)
        if not r.bad:
            ctx.ok("%s: all accesses inside%s" % (fn.base.replace(S, ""), why))

    # the numbers
    ext = {}
    for fn in sorted(prog.fns.values(), key=lambda f: f.dem):
        if not fn.base.startswith(DF) or fn.base.startswith(DF + "set_"):
            continue
        done.add(fn.dem)
        ctx.count("functions")
        objs = {k: size for k, a in enumerate(fn.args) if a[1] == "ptr" and a[0] in ("this", "term", "factor")}
        pr = fn.base.endswith("print_to_with_precision")
        r = Bound(prog, ctx, fn, objs, facts={k: (PRECISION,) for k, a in enumerate(fn.args) if a[1] == "i32"} if pr else {})
        r.numbers, r.obj = True, size
        analyse(fn, r, 900000)
        report(fn, r)
        ext[fn.base] = dict(r.extent)
        for k in objs:
            ext[fn.base][k] = size

    # the sizes of literals that occur
    lit = prog.one(S + "decode_literal")
    r = Bound(prog, ctx, lit, ext=ext)
    analyse(lit, r, 200000)
    sizes = set()
    for c, args, poss, ins in r.calls:
        if c == S + "decode_real":
            for a, b in poss[2]:
                sizes |= set(range(a, min(b, a + 64) + 1))
    if not sizes:
        raise Broken("anchor vanished: decode_literal decodes no real numbers")

    # the printer of those, by size
    pri = prog.one("libcwd::_private_::implementation_details::decode_real")
    ieee = [f for f in prog.fns.values() if f.base.endswith("::print_IEEE_fp")]
    done |= {pri.dem} | {f.dem for f in ieee}
    real = prog.one(S + "decode_real")
    done.add(real.dem)
    for s in sorted(sizes):
        ctx.count("sizes of literals")
        r = Bound(prog, ctx, pri, ext=ext, consts={3: s})
        r.numbers, r.obj = True, size
        analyse(pri, r, 200000)
        report(pri, r, ", %d bytes" % s)
        use = dict(r.extent)
        for c, args, poss, ins in r.calls:
            for f in ieee:
                if c != f.base:
                    continue
                ctx.count("functions")
                consts = {k: a[1] for k, a in enumerate(args) if a[0] == "c"}
                q = Bound(prog, ctx, f, ext=ext, consts=consts)
                q.numbers, q.obj = True, size
                analyse(f, q, 900000)
                report(f, q, ", %d bytes" % s)
                for c2, args2, poss2, ins2 in q.calls:
                    if c2 == DF + "print_to_with_precision" and not (PRECISION[0] <= poss2[2][0][0] and poss2[2][-1][1] <= PRECISION[1]):
                        ctx.violation("bounds|precision", "prints more digits than a number has", ins2.where(), [])
                for k, n in q.extent.items():
                    a = args[k]
                    if a[0] == "a":
                        use[a[1]] = max(use.get(a[1], 0), n)
        r = Bound(prog, ctx, real, ext={"virtual " + B + "implementation_details::decode_real": use}, consts={2: s})
        r.unroll = r.affine = 400
        analyse(real, r, 900000)
        report(real, r, ", %d bytes" % s)
        ctx.ok("a literal of %d bytes: the printer writes %d bytes and reads %d" % (s, use.get(1, 0), use.get(2, 0)))

    # the lengths of names
    fn = prog.one(S + "decode_source_name")
    q = Digits(prog, ctx, fn)
    if q.find():
        analyse(fn, q, 200000)
        report(fn, q)

    # everything else
    for fn in sorted(prog.fns.values(), key=lambda f: f.dem):
        if fn.dem in done or not re.search(r"demangler::|demangle_(type|symbol)$", fn.base):
            continue
        ctx.count("functions")
        r = Bound(prog, ctx, fn, ext=ext)
        r.unroll, r.affine, r.max_states = 3, 8, 60
        analyse(fn, r, 400000)
        report(fn, r)
