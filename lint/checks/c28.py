"""What type information is filled in with, for every kind of type.

For every kind of type (builtin, class, enum, array, qualified, reference, pointer, cv-qualified pointer, pointer to void, to an
incomplete type, to a function, to a member) the function that hands out its TypeInfo is analysed with everything of
the library inlined.  Every path returns the same object, and either fills it in on the way, with the size of that very
type, the size of what it points to and the name of that very type (built from typeid of that type), or the path was taken
because of a flag that is not set initially and that every path that fills the object in sets.  The label is a copy in
memory of its own size; the construction of the exact name stays within what it allocates and strips exactly the prefix the
ABI puts there; the unknown object has no name."""
from core import *
from sym import *
import lin

FLOORS = {"types": 50, "returns": 100, "accessors": 4, "strings": 2}
TECHNIQUE = "path-sensitive symbolic summary of every instantiation (all kinds of types), compared with the compiler's own sizes and type names"

NOINL = [r"make_label$", r"extract_exact_name$", r"skip_substitution$", r"^std::", r"demangle_type$", r"::instance$", r"assert_fail",
         r"^libcwd::core_dump$", r"::fatal_finish$", r"::start$", r"::finish$"]


class Op(Sym):
    max_states = 20000

    def __init__(self, prog):
        Sym.__init__(self)
        self.prog = prog

    def load(self, fl, st, ins, a, f):
        if a[0] == "g" and a not in st.mem:
            v = constant(self.prog, a[1])
            if v is not None:
                return ("val", C(v))
        return Sym.load(self, fl, st, ins, a, f)

    def store(self, fl, st, ins, a, v, f):
        if fl.root(a)[0] == "g":
            self.event(st, "st", a)
        return Sym.store(self, fl, st, ins, a, v, f)

    def known(self, fl, st, ins, args, c):
        if c == "std::type_info::name":
            return ("val", ("tname", args[0]))
        if c.endswith("::extract_exact_name"):
            return ("val", ("exact",) + tuple(args))
        if c.endswith("::make_label"):
            return ("val", ("label", args[0]))
        if c == "__cxa_guard_acquire":
            self.event(st, "acquire", args[0])
            t = ("guard", args[0])
            fl.wd[t] = 32
            return ("val", t)
        if c == "__cxa_guard_release":
            self.event(st, "release", args[0])
            return ("pure",)
        if c in ("__cxa_atexit", "llvm.assume"):
            return ("pure",)
        return None


_stores = {}


def constant(prog, name):
    """the value of a global that nothing in the program stores to"""
    g = prog.globals.get(name)
    if not g or not isinstance(g.get("init"), dict) or "c" not in g["init"]:
        return None
    if g.get("const"):
        return g["init"]["c"]
    if name not in stored(prog):
        return g["init"]["c"] if re.search(r"_v<", g["dem"]) else None
    return None


def stored(prog):
    k = id(prog)
    if k not in _stores:
        s = set()
        for fn in prog.fns.values():
            for i in fn.instrs():
                for o in i.ops if i.op in ("store", "atomicrmw", "cmpxchg") or i.is_call() else ():
                    b = o
                    if isinstance(b, int) and fn.ins.get(b) is not None and fn.ins[b].op == "getelementptr":
                        b = fn.ins[b].ops[0]
                    if isinstance(b, dict) and "g" in b:
                        s.add(b["g"])
        _stores[k] = s
    return _stores[k]


def only(prog, name):
    fn = prog.one(name)
    r = Op(prog)
    fl = analyse(fn, r)
    vs = {v for st, ins, v in r.rets}
    if len(vs) != 1:
        raise Broken("%s does not return one value" % name)
    return vs.pop(), fn


def run(ctx):
    try:
        prog = inl(dump=[r"^w_", r"__cxx_global_var_init", r"_GLOBAL__sub_I"], witnesses=["typeinfo.cc"], noinline=NOINL)
    except Broken as e:
        m = re.search(r"typeinfo\.cc does not compile.*?(\S*/include/libcwd/type_info\.h:\d+):\d+: error: ([^\n]*)", str(e), re.S)
        if not m:
            raise
        ctx.violation("typeinfo|compile", "type_info_of cannot be asked for some kind of type: " + m.group(2), m.group(1))
        return
    offs = {}
    for k in ("size", "ref", "name", "dem"):
        v, fn = only(prog, "w_a_" + k)
        ctx.analysed(fn)
        ctx.count("accessors")
        if v[0] == "m0" and (v[1] == ("a", 0) or v[1][0] == "+" and v[1][1] == ("a", 0)):
            offs[k] = v[1][2] if v[1][0] == "+" else 0
        else:
            raise Broken("what the accessor for %s returns is not understood: %s" % (k, v))
    if len(set(offs.values())) < 4:
        d = sorted(offs, key=lambda k: offs[k])
        ctx.violation("typeinfo|accessors", "two accessors return the same member: %s" % ", ".join("%s at %d" % (k, offs[k]) for k in d), prog.one("w_a_size").where())
        return
    flags, objs = {}, {}
    for fn in sorted((f for f in prog.fns.values() if re.match(r"w_e_", f.base) and f.blocks), key=lambda f: f.base):
        n = fn.base[4:]
        ctx.count("types")
        ctx.analysed(fn)
        size = only(prog, "w_s_" + n)[0]
        ref = only(prog, "w_r_" + n)[0]
        name = only(prog, "w_n_" + n)[0]
        exact = bool(prog.find("w_x_" + n))
        if exact:
            name = ("exact", only(prog, "w_x_" + n)[0], name)
        one(ctx, prog, fn, offs, size, ref, name, exact, flags, objs)
    init(ctx, prog, offs, flags, objs)
    label(ctx)
    exactname(ctx, prog)


def one(ctx, prog, fn, offs, size, ref, name, exact, flags, objs):
    r = Op(prog)
    fl = analyse(fn, r)
    n0 = len(ctx.violations)

    def bad(k, msg, ins, st):
        ctx.violation("typeinfo|%s|%s" % (fn.base, k), "%s: %s" % (what, msg), ins.where(), st.path())
    what = "type_info_of %s %s" % ("the type" if exact else "an object of type", typename(name))
    want = {"size": size, "ref": ref, "name": name}
    obj = None
    filled, kept = [], []
    if not r.rets:
        ctx.violation("typeinfo|%s|noreturn" % fn.base, "%s: never returns" % what, fn.where())
        return
    for st, ins, v in r.rets:
        ctx.count("returns")
        obj = obj or v
        if v is None or v[0] != "g" or v != obj:
            bad("object", "does not always return the same object", ins, st)
            return
        cur = {k: r.final(fl, st, fl.mk_add(v, o)) for k, o in offs.items()}
        old = {k: ("m0", fl.mk_add(v, o)) for k, o in offs.items()}
        if cur == old:
            kept.append((st, ins))
            continue
        filled.append((st, ins))
        for k, w in want.items():
            if k == "name" and name[0] == "exact" and cur[k] == ("exact",) + name[1:]:
                continue
            if not same(fl, st, cur[k], w):
                bad(k, {"size": "its size is not the size of that type", "ref": "the size of what it points to is not %s" % (
                    "zero" if ref == C(0) else "that of the type pointed to"), "name": "its name is not made from the name of that type"}[k], ins, st)
        if cur["dem"] != ("label", cur["name"]):
            bad("dem", "its demangled name is not made from its name", ins, st)
    if obj in objs and objs[obj][0] != want:
        bad("shared", "shares its object with %s" % objs[obj][1], r.rets[0][1], r.rets[0][0])
    objs[obj] = (want, what)
    if not filled:
        bad("never", "is never filled in", r.rets[0][1], r.rets[0][0])
    # paths that keep what is there: because of a flag that filling it in sets
    for st, ins in kept:
        for t, s in guards(fl, r, st):
            a = addr_of(t)
            if a is None:
                continue
            z = zero_init(prog, a)
            if z is None or inside(fl, t, s, a, C(z)):
                continue
            if all(inside(fl, t, s, a, r.final(fl, fs, a)) for fs, fi in filled):
                flags.setdefault(a, what)
                for fs, fi in filled:
                    o = [e[1] for e in r.events(fs) if e[0] == "st"]
                    mine = {fl.mk_add(obj, x) for x in offs.values()}
                    if a in o and a not in mine and any(x in mine for x in o[o.index(a):]):
                        bad("order", "is said to be filled in before it is", fi, fs)
                break
        else:
            g = [e for e in r.events(st) if e[0] == "acquire"]
            if g and all(("release", g[-1][1]) in r.events(fs) for fs, fi in filled):
                continue
            bad("unfilled", "can be handed out without ever having been filled in", ins, st)
    for st, ins in filled:
        # filled in again later: only harmless when it is the same
        pass
    if len(ctx.violations) == n0:
        ctx.ok("%s: filled in with its size, its pointee's size and its name before it is handed out" % what)


def typename(name):
    t = name[2] if name[0] == "exact" else name
    g = t[1][1] if t[0] == "tname" and t[1][0] == "g" else str(t)
    return g.replace("_ZTI", "")


def same(fl, st, v, w):
    if v == w:
        return True
    if v is not None and w[0] == "c":
        s = fl.possible(st, v, 64)
        return len(s) == 1 and s[0] == (w[1], w[1])
    return False


def guards(fl, r, st):
    return sorted(st.facts.items(), key=str)


def addr_of(t):
    """the one address of initial memory a term depends on"""
    out = set()

    def go(x):
        if isinstance(x, tuple) and x and x[0] == "m0":
            out.add(x[1])
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(t)
    return out.pop() if len(out) == 1 else None


def zero_init(prog, a):
    base, k = (a, 0) if a[0] == "g" else (a[1], a[2]) if a[0] == "+" else (None, 0)
    if base is None or base[0] != "g":
        return None
    g = prog.globals.get(base[1])
    if not g or "init" not in g:
        return None
    i = g["init"]
    if k == 0 and "c" in i:
        return i["c"]
    if "n" in i or i.get("a") is not None or i.get("z"):
        return 0
    return None


def inside(fl, t, s, a, v):
    if v is None:
        return False
    if v[0] == "c":
        x = fl.evalterm(t, {("m0", a): v[1]})
    elif v[0] in ("label", "exact", "tname", "g"):      # a pointer to something
        x = fl.evalterm(t, {("m0", a): 0x1000})
    else:
        return False
    return x is not None and any(lo <= x <= hi for lo, hi in s)


def init(ctx, prog, offs, flags, objs):
    """dynamic initialisation: touches none of these, except the unknown object, which gets no name"""
    v, fn = only(prog, "w_unknown")
    seen = False
    special = {x for x in list(flags) + list(objs)}
    names = {(x if x[0] == "g" else x[1])[1] for x in special if x[0] in ("g", "+")}
    for f in prog.fns.values():
        if not re.search(r"__cxx_global_var_init|_GLOBAL__sub_I", f.base) or not f.blocks:
            continue
        touched = set()
        for i in f.instrs():
            for o in i.ops if i.op == "store" or i.is_call() else ():
                b = o
                while isinstance(b, int) and f.ins.get(b) is not None and f.ins[b].op == "getelementptr":
                    b = f.ins[b].ops[0]
                if isinstance(b, dict) and "g" in b:
                    touched.add(b["g"])
                    if b["g"] in names and not (i.op == "store" and o is i.ops[0]):
                        ctx.violation("typeinfo|init|%s" % b["g"], "%s is initialised dynamically: what was filled in before is lost" % b["g"], i.where())
        if v[1] not in touched:
            continue
        seen = True
        ctx.analysed(f)
        r = Op(prog)
        fl = analyse(f, r)
        for st, ins, val in r.rets:
            n = r.final(fl, st, fl.mk_add(v, offs["name"]))
            if not same(fl, st, n, C(0)) and not (n == ("m0", fl.mk_add(v, offs["name"])) and zero_init(prog, v) == 0):
                ctx.violation("typeinfo|unknown|name", "the unknown type information object has a name", ins.where(), st.path())
            d = r.final(fl, st, fl.mk_add(v, offs["dem"]))
            if d is None or d[0] != "g":
                ctx.violation("typeinfo|unknown|dem", "the unknown type information object has no constant text as demangled name", ins.where(), st.path())
    if not seen:
        g = prog.globals.get(v[1])
        i = (g or {}).get("init")
        if not i or "a" not in i:
            raise Broken("the initialisation of the unknown type information object is not found")
        k = sorted(offs, key=lambda k: offs[k]).index("name")
        if i["a"][k].get("n") != 1:
            ctx.violation("typeinfo|unknown|name", "the unknown type information object has a name", fn.where())
    if v in objs:
        ctx.violation("typeinfo|unknown|shared", "the unknown object is the object of a type", fn.where())
    ctx.ok("the unknown object has no name; no object is initialised dynamically")


class Text(Sym):
    """sizes of allocations against what is copied into them"""
    max_states = 20000

    def __init__(self, ctx):
        Sym.__init__(self)
        self.ctx2 = ctx
        self.bad = []
        self.copies = 0
        self.sizes = {}

    def known(self, fl, st, ins, args, c):
        m = re.search(r"basic_string<.*>::(size|length|c_str|data)$", c)
        if m:
            k = {"length": "size", "data": "c_str"}.get(m.group(1), m.group(1))
            t = (k, args[0], len([e for e in self.events(st) if e[0] == "mod" and e[1] == args[0]]))
            fl.wd[t] = 64
            if k == "c_str":
                st.facts[t] = ((1, (1 << 63) - 1),)
            return ("val", t)
        if re.search(r"basic_string<.*>::(~)?basic_string$", c) or c.endswith("::demangle_type"):
            for a in args:
                if a[0] == "al":
                    self.event(st, "mod", a)
            if c.endswith("::demangle_type"):
                self.event(st, "demangle", args[0], args[1], len([e for e in self.events(st) if e[0] == "mod" and e[1] == args[1]]))
            return ("pure",)
        if c in ("operator new[]", "malloc"):
            t = ("new", args[0], ins.id)
            fl.wd[t] = 64
            st.facts[t] = ((1, (1 << 63) - 1),)
            return ("val", t)
        if c == "strlen":
            return ("val", self.strlen(fl, st, args[0]))
        if c == "strdup":
            t = ("new", ("+", self.strlen(fl, st, args[0]), 1), ins.id)
            fl.wd[t] = 64
            self.event(st, "copy", t, args[0], "all")
            return ("val", t)
        if c in ("strcpy", "stpcpy", "strncpy", "memcpy"):
            n = fl.mk_add(self.strlen(fl, st, args[1]), 1) if len(args) < 3 else args[2]
            self.write(fl, st, ins, args[0], n)
            self.event(st, "copy", args[0], args[1], "all" if len(args) < 3 else args[2])
            return ("val", args[0])
        return None

    def strlen(self, fl, st, x):
        if x[0] == "c_str":
            t = ("size", x[1], x[2])
        else:
            t = ("strlen", x)
        fl.wd[t] = 64
        return t

    def store(self, fl, st, ins, a, v, f):
        b = a
        while b[0] in ("+", "idx"):
            b = b[1]
        if b[0] == "new":
            self.write(fl, st, ins, a, C(1))
            return None
        return Sym.store(self, fl, st, ins, a, v, f)

    def write(self, fl, st, ins, dst, n):
        b = dst
        while b[0] in ("+", "idx"):
            b = b[1]
        if b[0] != "new":
            return
        self.copies += 1
        off = lin.sub(lin.lf(fl, dst), lin.lf(fl, b))
        size = self.norm(fl, lin.lf(fl, b[1]))
        end = self.norm(fl, lin.add(off, lin.lf(fl, n)))
        extra = []
        for a in set(size[0]) | set(end[0]):        # positions in a string are not beyond its end
            for s in bases(fl.fn, a) if a[0] in ("i", "e", "w", "o") else ():
                extra.append(({s: 1, ("strlen", s): 1, a: -1}, 0))
        rel = lin.Rel(fl, st, lambda t: t[0] in ("strlen", "size") or counter(fl.fn, t), extra)
        if not rel.holds(lin.sub(size, end)):
            self.bad.append((ins, st.copy(), "writes more than was allocated may hold"))

    def norm(self, fl, x):
        """strlen(p + k) = strlen(p) - k for a pointer into the same string"""
        d, c = dict(x[0]), x[1]
        for a in list(d):
            if a[0] == "strlen":
                base, off = self.origin(fl, a[1])
                if base is not None and off != ({}, 0):
                    k = d.pop(a)
                    d[("strlen", base)] = d.get(("strlen", base), 0) + k
                    for b, v in off[0].items():
                        d[b] = d.get(b, 0) - k * v
                    c -= k * off[1]
        return lin.norm_lin(d), c

    def origin(self, fl, p):
        """(string, offset) when p points into a string of which the length is known by that name"""
        x = lin.lf(fl, p)
        for a in sorted(x[0], key=str):
            if x[0][a] == 1:
                for b in bases(fl.fn, a):
                    return b, lin.sub(x, ({b: 1}, 0))
        return None, None


def counter(fn, t):
    """a value that starts at a constant and only ever grows"""
    if t[0] not in ("i", "e", "w", "o"):
        return False
    seen, work = set(), [t[2] if t[0] == "w" else t[1]]
    while work:
        v = work.pop()
        if isinstance(v, dict):
            if not 0 <= v.get("c", -1) < 1 << 31:
                return False
            continue
        if v in seen:
            continue
        seen.add(v)
        i = fn.ins.get(v)
        if i is None:
            return False
        if i.op == "phi":
            work += [x for x, b in i.get("in")]
        elif i.op in ("add", "select"):
            work += list(i.ops) if i.op != "select" else list(i.ops[1:])
        elif i.op in ("zext", "sext"):
            work.append(i.ops[0])
        else:
            return False
    return True


def bases(fn, t):
    """the argument that a pointer computed in a loop points into"""
    if t[0] == "a":
        return [t]
    if t[0] not in ("i", "o", "w", "e"):
        return []
    v = t[2] if t[0] == "w" else t[1]
    seen, out, work = set(), set(), [v]
    while work:
        v = work.pop()
        if isinstance(v, int) and v < len(fn.args):
            out.add(("a", v))
            continue
        if not isinstance(v, int) or v in seen:
            if not isinstance(v, int) and not (isinstance(v, dict) and ("u" in v or "x" in v)):
                out.add(None)
            continue
        seen.add(v)
        i = fn.ins.get(v) if isinstance(v, int) else None
        if i is None:
            return []
        if i.op == "phi":
            work += [x for x, b in i.get("in")]
        elif i.op in ("getelementptr", "bitcast", "select"):
            work += [i.ops[0]] if i.op != "select" else list(i.ops[1:])
        elif i.is_call() and (i.callee or "").endswith("::skip_substitution"):
            work.append(i.ops[0])
        else:
            out.add(None)
    return sorted(out) if len(out) == 1 and None not in out else []


def label(ctx):
    prog = inl(dump=[r"::make_label$"], witnesses=["typeinfo.cc"], noinline=[r"^std::", r"demangle_type$"])
    fn = prog.one("libcwd::_private_::make_label")
    ctx.analysed(fn)
    r = Text(ctx)
    fl = analyse(fn, r)
    n0 = len(ctx.violations)
    for ins, st, msg in r.bad:
        ctx.violation("typeinfo|make_label|size", "make_label: " + msg, ins.where(), st.path())
    for st, ins, v in r.rets:
        ev = r.events(st)
        ctx.count("strings")
        dem = [e for e in ev if e[0] == "demangle"]
        cp = [e for e in ev if e[0] == "copy" and e[1] == v]
        if not dem or dem[-1][1] != ("a", 0):
            ctx.violation("typeinfo|make_label|input", "make_label does not demangle the name it was given", ins.where(), st.path())
        elif v is None or v[0] != "new" or not cp:
            ctx.violation("typeinfo|make_label|copy", "make_label does not return a copy of its own of the demangled name", ins.where(), st.path())
        elif cp[-1][2][0] != "c_str" or cp[-1][2][1:] != dem[-1][2:]:
            ctx.violation("typeinfo|make_label|text", "make_label returns something else than the demangled name", ins.where(), st.path())
        elif cp[-1][3] != "all" and cp[-1][3] != fl.mk_add(("size",) + cp[-1][2][1:], 1):
            ctx.violation("typeinfo|make_label|text", "make_label does not copy the whole demangled name", ins.where(), st.path())
    if len(ctx.violations) == n0:
        ctx.ok("make_label returns a complete copy of the demangled name")


class Exact(Text):
    def known(self, fl, st, ins, args, c):
        if c.endswith("::skip_substitution"):
            return ("val", fl.fresh(st, ins))
        if re.search(r"core_dump$|assert_fail|fatal_finish$", c):
            st.dead = True
            return ("pure",)
        if re.search(r"::instance$|::start$|::finish$|__errno_location", c):
            return ("pure",)
        return Text.known(self, fl, st, ins, args, c)


def exactname(ctx, wprog):
    prog = inl(dump=[r"::extract_exact_name$", r"::skip_substitution$"], witnesses=["typeinfo.cc"], noinline=NOINL)
    fn = prog.one("libcwd::_private_::extract_exact_name")
    ctx.analysed(fn)
    ti = [g for g in wprog.globals if g.startswith("_ZTI22libcwd_type_info_exactI")]
    if not ti:
        raise Broken("no type information of libcwd_type_info_exact")
    prefix = len("22libcwd_type_info_exactI")
    r = Exact(ctx)
    r.merge = True
    fl = analyse(fn, r)
    n0 = len(ctx.violations)
    for ins, st, msg in r.bad:
        ctx.violation("typeinfo|exact|size", "extract_exact_name: " + msg, ins.where(), st.path())
    if not r.rets:
        ctx.violation("typeinfo|exact|noreturn", "extract_exact_name never returns", fn.where())
    for st, ins, v in r.rets:
        ctx.count("strings")
        cp = [e for e in r.events(st) if e[0] == "copy"]
        if v is None or v[0] != "new":
            ctx.violation("typeinfo|exact|own", "extract_exact_name does not return memory of its own", ins.where(), st.path())
            continue
        for e in cp:
            src = lin.lf(fl, e[2])
            if ("a", 0) in src[0] and src == ({("a", 0): 1}, src[1]) and src[1] != prefix:
                ctx.violation("typeinfo|exact|prefix", "extract_exact_name strips %d characters, the ABI puts %d there" % (src[1], prefix), ins.where(), st.path())
        full = [e for e in cp if e[2] == ("a", 1) and e[3] == "all"]
        quals = [e for e in cp if e[1] == v and e[3] != "all"]
        if full and quals and not any(f[1] == v2 for f in full for v2 in [plus(fl, v, quals[0][3])]):
            ctx.violation("typeinfo|exact|place", "extract_exact_name does not put the name right behind the qualifiers", ins.where(), st.path())
    # positions handed out by skip_substitution stay inside the string
    fn = prog.one("libcwd::_private_::skip_substitution")
    ctx.analysed(fn)
    r = Sym()
    fl = analyse(fn, r)
    for st, ins, v in r.rets:
        ctx.count("strings")
        if v == ("a", 0):
            continue
        rel = lin.Rel(fl, st, lambda t: t[0] == "a")
        x = lin.lf(fl, v)
        if not rel.holds(lin.sub(lin.lf(fl, ("a", 0)), x)) or not rel.holds(lin.sub(x, lin.lf(fl, ("a", 1)))):
            ctx.violation("typeinfo|exact|skip", "skip_substitution returns a position outside of the text it was given", ins.where(), st.path())
    if len(ctx.violations) == n0:
        ctx.ok("extract_exact_name stays inside what it allocates and strips the prefix of the ABI")


def plus(fl, a, n):
    return fl.mk_add(a, n[1]) if n[0] == "c" else fl.mk_idx(a, 0, ((n, 1),))
