"""Constant evaluation of the flag definitions: the compiler folds a table of all control flags, marker bits
and location flags; every entry must be a single bit and no two entries of a mask may share one.  Symbolic
summaries of the ten conditional helpers (both outcomes of the condition) and of operator|(control_flag_t)
of both channel sets (bit by bit: result = old mask OR flag).  The marker bits handed to the special channels
at all construction and initialization sites are folded constants and must be the distinct known bits."""
from core import *
from sym import *

FLOORS = {"flags": 19, "pairs": 123, "helpers": 10, "operator|(flag)": 2, "special channel sites": 4}


def table(prog, name):
    g = prog.globals.get("_ZN6libcwd%d%sE" % (len(name), name))
    if not g or "init" not in g:
        raise Broken("witness table %s is not constant" % name)
    return [x.get("c", x.get("s")) for x in g["init"]["a"]]


def run(ctx):
    prog = inl(dump=[r"^libcwd::w_cond_", r"^libcwd::(Continued)?ChannelSet::operator\|$"], witnesses=["flags.cc"])
    rawp = raw(witnesses=["flags.cc"])
    values = {}
    for kind in ("control", "location"):
        v, n = table(rawp, "w_%s_flags" % kind), table(rawp, "w_%s_names" % kind)
        for a in range(len(v)):
            ctx.count("flags")
            values[n[a]] = v[a]
            if v[a] <= 0 or v[a] & (v[a] - 1) or v[a] >> 32:
                ctx.violation("flag|" + n[a], "%s = %#x is not a single bit of the mask" % (n[a], v[a]), "include/libcwd")
            for b in range(a):
                ctx.count("pairs")
                if v[a] & v[b]:
                    ctx.violation("flag|%s|%s" % (n[b], n[a]), "%s = %#x and %s = %#x collide" % (n[b], v[b], n[a], v[a]), "include/libcwd")
                else:
                    ctx.ok("%s and %s are disjoint" % (n[b], n[a]))
    for fn in prog.match(r"^libcwd::w_cond_"):
        name = fn.base.split("w_cond_")[1]
        want = values[name]
        r = Sym(ctx)
        fl = analyse(fn, r)
        ctx.analysed(fn)
        ctx.count("helpers")
        seen = set()
        for st, ins, val in r.rets:
            for c in (0, 1):
                if not fl.consistent(st, {("a", 0): c}):
                    continue
                x = fl.evalterm(val, {("a", 0): c})
                if x is None:
                    raise Broken("%s: result is not a function of the condition" % fn.base)
                seen.add(c)
                if x != (want if c else 0):
                    ctx.violation("helper|" + name, "the conditional helper of %s yields %#x for %s" % (name, x, bool(c)), ins.where())
                else:
                    ctx.ok("%s(%s) = %#x" % (name, bool(c), x))
        if seen != {0, 1}:
            raise Broken("%s: not both outcomes covered" % fn.base)
    for cls in ("ChannelSet", "ContinuedChannelSet"):
        fns = [f for f in prog.find("libcwd::%s::operator|" % cls) if "unsigned int" in f.dem]
        if not fns:
            raise Broken("anchor vanished: %s::operator|(control_flag_t)" % cls)
        fn = fns[0]
        off = prog.offset("libcwd::" + cls, "mask")
        r = Sym(ctx)
        fl = analyse(fn, r)
        ctx.analysed(fn)
        ctx.count("operator|(flag)")
        a = fl.mk_add(("a", 0), off)
        for st, ins, val in r.rets:
            t = r.final(fl, st, a)
            ok = val == ("a", 0) and t is not None and bitwise(fl, t, (("m0", a), ("a", 1)), lambda m, f: m | f)
            others = [x for x in r.changed(fl, st) if x != a]
            if not ok or others:
                ctx.violation("or|" + cls, "%s | flag does not set exactly that flag (mask becomes %r)" % (cls, t), ins.where())
            else:
                ctx.ok("%s: mask | flag" % fn.dem)
        if not r.rets:
            raise Broken(fn.dem + " never returns")
    # marker bits of the special channels
    expect = {"fatal": "fatal_maskbit", "core": "coredump_maskbit", "continued": "continued_maskbit", "finish": "finish_maskbit"}
    for f in rawp.fns.values():
        for i in f.calls(r"^libcwd::(Fatal|Continued)Channel::(NS_initialize|(Fatal|Continued)Channel)$"):
            g = i.ops[0].get("g") if isinstance(i.ops[0], dict) else None
            if g is None:
                continue
            nm = rawp.globals.get(g, {}).get("dem", "").split("::")[-1]
            if nm not in expect:
                continue
            ctx.count("special channel sites")
            c = f.const(i.ops[-1])
            if c is None:
                raise Broken("%s: marker bit of dc::%s is not a constant" % (i.where(), nm))
            if c != values[expect[nm]]:
                ctx.violation("site|" + nm, "dc::%s is given marker bit %#x instead of %s" % (nm, c, expect[nm]), i.where())
            else:
                ctx.ok("%s: dc::%s has %s" % (i.where(), nm, expect[nm]))
