"""Transition table of source-location objects, computed from the code.

Every operation (constructors, lookup, copy, assignment from another location and from itself, clear, lock_ownership,
destructor) is analysed with all of its own calls inlined, once for each combination of known / owns its path / path
locked of the objects involved; the results of the debug-info lookup are arbitrary.  At every return the object is either
known, with a path, a file name that points into that same path, and a line that belongs to it, or not known, with a
function name that was set by the operation; every path of which the memory was owned before, or was allocated, is
owned by exactly one object or was released exactly once, as an array.  The accessors and printers are followed with a
location that is not known: nothing is read from path, file name or line.  The lookup itself only says 'known' when it delivers a
file and a line."""
from core import *
from sym import *
import itertools

FLOORS = {"operations": 9, "readers": 8, "returns": 60, "lookups": 1}
TECHNIQUE = "path-sensitive symbolic transition table of every operation over all known/owner/locked states"
CLS = "libcwd::Location"


def offsets(prog):
    o = {m: prog.offset(CLS, m) for m in ("object_file_name_", "function_name_", "line_", "known_")}
    f = prog.offset(CLS, "filepath_")
    c = "libcwd::lockable_auto_ptr<char, true>"
    for m in ("ptr_", "locked_", "owner_"):
        o[m] = f + prog.offset(c, m)
    try:
        o["filename_"] = prog.offset(CLS, "filename_")
    except Exception:
        o["filename_"] = f + 16
    return o


class Op(Sym):
    max_states = 30000

    def __init__(self, facts, offs, reader=False):
        Sym.__init__(self)
        self.facts0, self.offs, self.reader = facts, offs, reader
        self.bad, self.fp = [], set()

    def start(self, fl, st):
        Sym.start(self, fl, st)
        for t, v in self.facts0.items():
            fl.wd[t] = 8
            st.facts[t] = ((v, v),)
        for x in ("l_a", "l_b"):            # a known location has a path and a file name
            if self.facts0.get(("m0", fl.mk_add(("g", x), self.offs["known_"]))) == 1:
                for m in ("ptr_", "filename_"):
                    t = ("m0", fl.mk_add(("g", x), self.offs[m]))
                    fl.wd[t] = 64
                    st.facts[t] = ((1, (1 << 64) - 1),)

    def keep_mem(self, fl, a, f):
        return True

    def load(self, fl, st, ins, a, f):
        if f and f.endswith("LocationLookupResult::filepath"):
            v = fl.mem_load(st, a, f, ins)
            self.fp.add(v)
            return ("val", v)
        return Sym.load(self, fl, st, ins, a, f)

    def exposes(self, fl, st, ins, v):
        """reader of an unknown location: does v come from path, file name or line?"""
        if not self.reader or v is None:
            return
        for m in ("ptr_", "line_", "filename_"):
            if mentions(v, ("m0", fl.mk_add(("g", "l_a"), self.offs[m]))):
                s = fl.possible(st, ("m0", fl.mk_add(("g", "l_a"), self.offs["object_file_name_"])), 64)
                if m != "filename_" or tuple(s) != ((0, 0),):       # else: the address that is not known
                    self.bad.append((ins, m))

    def ret(self, fl, st, ins, val):
        self.exposes(fl, st, ins, val)
        Sym.ret(self, fl, st, ins, val)

    def known(self, fl, st, ins, args, c):
        for v in args:
            self.exposes(fl, st, ins, v)
        if re.match(r"operator delete(\[\])?$", c):
            self.event(st, "delete", c, args[0])
            return ("pure",)
        if re.match(r"operator new(\[\])?$", c):
            t = fl.fresh(st, ins)
            fl.restrict(st, t, ((1, (1 << 64) - 1),), 64)
            self.event(st, "new", c, t, args[0])
            return ("val", t)
        if c in ("strcpy", "memcpy", "strncpy", "stpcpy", "memmove"):
            self.event(st, "fill", c, args[0], args[1], args[2] if len(args) > 2 else None)
            return ("val", args[0])
        if c == "strlen":
            t = ("strlen", args[0])
            fl.wd[t] = 64
            return ("val", t)
        if c in ("strrchr", "rindex"):
            t = ("strrchr", args[0], args[1])
            fl.wd[t] = 64
            return ("val", t)
        if re.search(r"^(abort|libcwd::core_dump|__assert_fail|std::abort)$|assert_fail|::fatal_finish$", c):
            st.dead = True
            return ("pure",)
        if not c.startswith("llvm.") and not self.reader:
            for t in args:
                if fl.root(t) in (("g", "l_a"), ("g", "l_b")):
                    raise Broken("a location is passed to %s %s %s" % (c, args, ins.where()))
        return ("pure",)        # nobody else can reach the object

    def memcpy(self, fl, st, ins, dst, src, n):
        self.event(st, "fill", "memcpy", dst, src, n)


def run(ctx):
    prog = inl(dump=[r"^w_", r"^libcwd::.*SymbolRange::lookup_location$"], witnesses=["location.cc"],
               noinline=[r"^libcwd::core_dump$", r"::instance$", r"::(start|finish|fatal_finish|init)$", r"assert_fail", r"ST_initialize_globals",
                         r"::ensure_initialization$", r"^libcwd::dwarf::(?!LocationLookupResult)", r"^std::(?!swap|exchange|move|forward|__exchange)", r"^libcwd::.*ObjectFile", r"lookup_innermost",
                         r"::get_object_file$", r"SymbolRange", r"NS_in", r"::initialize$"])
    offs = offsets(prog)
    for fn in sorted((f for f in prog.fns.values() if re.match(r"w_", f.base) and f.blocks), key=lambda f: f.base):
        ctx.analysed(fn)
        if fn.base.startswith("w_r_"):
            ctx.count("readers")
            reader(ctx, fn, offs)
            continue
        ctx.count("operations")
        op = fn.base[2:]
        two = op in ("copy", "assign")
        fresh = op in ("copy", "default", "construct", "tsdconstruct")
        n = 0
        A = {m: ("+", ("g", "l_a"), o) if o else ("g", "l_a") for m, o in offs.items()}
        B = {m: ("+", ("g", "l_b"), o) if o else ("g", "l_b") for m, o in offs.items()}
        for bits in itertools.product((0, 1), repeat=6):
            k, o, l, bk, bo, bl = bits
            if (fresh and (k or o or l)) or (not two and (bk or bo or bl)) or (op == "tsdlookup" and k):
                continue
            facts = {} if fresh else {("m0", A["known_"]): k, ("m0", A["owner_"]): o, ("m0", A["locked_"]): l}
            if two:
                facts.update({("m0", B["known_"]): bk, ("m0", B["owner_"]): bo, ("m0", B["locked_"]): bl})
            r = Op(facts, offs)
            fl = analyse(fn, r)
            ctx.count("states")
            if not r.rets and not (op == "keep" and k and not o):       # only owners may be locked (asserted)
                ctx.violation("location|%s|noreturn" % op, "%s does not return (known %d, owner %d, locked %d)" % (op, k, o, l), fn.where())
            for st, ins, val in r.rets:
                ctx.count("returns")
                for m in set(judge(fl, st, r, op, dict(k=k, o=o, l=l, bk=bk, bo=bo, bl=bl), A, B, two, fresh)):
                    n += 1
                    ctx.violation("location|%s|%s" % (op, m), "%s (known %d, owner %d, locked %d%s): %s" % (
                        op, k, o, l, "; source %d, %d, %d" % (bk, bo, bl) if two else "", m), ins.where(), st.path())
        if not n:
            ctx.ok("%s leaves a consistent location in every state" % op)
    lookups(ctx, prog)


def judge(fl, st, r, op, s0, A, B, two, fresh):
    out = []
    vals = {x: s[0][0] for x, s in st.facts.items() if len(s) == 1 and s[0][0] == s[0][1]}

    def fin(a):
        return r.final(fl, st, a)

    def bit(a):
        t = fin(a)
        if t is None:
            return None
        v = fl.evalterm(t, vals)
        if v is None:
            s = fl.possible(st, t, fl.w(t))
            v = s[0][0] if len(s) == 1 and s[0][0] == s[0][1] else None
        return None if v is None else v & 1
    ev = r.events(st)
    dels = [e for e in ev if e[0] == "delete"]
    news = [e for e in ev if e[0] == "new"]
    fills = [e for e in ev if e[0] == "fill"]

    def null(t):
        return tuple(fl.possible(st, t, 64)) == ((0, 0),)
    for e in dels:
        if not e[1].endswith("[]"):
            out.append("a path is released with " + e[1])
    # ownership
    owned = {}
    if s0["o"]:
        owned[("m0", A["ptr_"])] = "its own path"
    if s0["bo"]:
        owned[("m0", B["ptr_"])] = "the source's path"
    for e in news:
        owned[e[2]] = "the new path"
    own_a = bit(A["owner_"]) if op != "destroy" else 0
    pa = fin(A["ptr_"])
    own_b = bit(B["owner_"]) if two else 0
    pb = fin(B["ptr_"])
    if own_a is None or own_b is None:
        out.append("it is not known who owns the path")
        return out
    for p, what in owned.items():
        n = sum(1 for e in dels if e[2] == p) + (1 if own_a and pa == p else 0) + (1 if own_b and pb == p else 0)
        if null(p):
            continue
        if n == 0:
            out.append("%s is neither released nor owned" % what)
        elif n > 1:
            out.append("%s is released or owned twice" % what)
    for e in dels:
        if e[2] not in owned and not null(e[2]):
            out.append("releases a path that it does not own")
    if own_a and pa not in owned and not (pa is not None and null(pa)):
        out.append("it owns a path that somebody else owns")
    if op == "destroy":
        return out
    # known or not
    k = bit(A["known_"])
    t = fin(A["known_"])
    if k is None and t is not None and t[0] != "m0":
        # the verdict of the lookup: both cases
        ks = [0, 1]
        s = fl.possible(st, t, 8)
        if tuple(s) == ((0, 0),):
            ks = [0]
        elif s and s[0][0] > 0:
            ks = [1]
    else:
        ks = [k]
    fnm, obj = fin(A["function_name_"]), fin(A["object_file_name_"])
    stored = st.p[0]
    for k in ks:
        if k is None:
            out.append("it is not set whether the location is known")
            continue
        if k == 1:
            name, line = fin(A["filename_"]), fin(A["line_"])
            if op.endswith(("lookup", "construct")) and not news:
                # known by the lookup without a file: excluded by the lookup's own contract
                if not any(null(x) for x in r.fp) or t[0] == "c":
                    out.append("known, but without a path")
                continue
            src = [X for X in ((A, s0["k"]), (B, s0["bk"])) if pa == ("m0", X[0]["ptr_"]) and X[1]]
            if src:
                X = src[0][0]
                if name != ("m0", X["filename_"]) or (fresh or two) and name is None:
                    out.append("known, but the file name does not belong to the path")
                if line != ("m0", X["line_"]):
                    out.append("known, but the line does not belong to the path")
            elif news and pa == news[-1][2]:
                ok = name == pa
                if not ok and name is not None and name[0] == "+" and name[1][0] == "strrchr" and name[1][1] == pa and name[2] in (0, 1):
                    s = fl.possible(st, name[1], 64)
                    ok = not (s and s[0][0] == 0)
                if not ok:
                    out.append("known, but the file name does not point into the path")
                if A["line_"] not in stored:
                    out.append("known, but the line is not set")
                f = [e for e in fills if e[2] == pa]
                if not f:
                    out.append("known, but the path is not filled in")
            else:
                out.append("known, but without a path")
        if k == 0 or k == 1:
            if A["function_name_"] not in stored and op not in ("keep", "self"):
                out.append("the function name is not set")
            if fresh and A["object_file_name_"] not in stored:
                out.append("the object file is not set")
        if fnm is not None and null(fnm):
            out.append("there is no function name")
    for e in news:
        f = [x for x in fills if x[2] == e[2]]
        if f:
            if len(f) != 1 or f[0][1] not in ("strcpy", "memcpy", "stpcpy", "memmove"):
                out.append("the path is not copied completely")
            elif e[3] != fl.mk_add(("strlen", f[0][3]), 1) or (f[0][4] is not None and f[0][4] != e[3]):
                out.append("the new path has not the size of what is copied")
    # the particular operations
    k = ks[0] if len(ks) == 1 else None
    if op in ("default", "clear"):
        if k != 0 or not (obj is not None and null(obj)):
            out.append("it is not unknown afterwards")
        if not (fnm is not None and fnm[0] == "g"):
            out.append("the function name does not say why the location is unknown")
    if two:
        if k != s0["bk"]:
            out.append("the copy is %sknown" % ("not " if s0["bk"] else ""))
        if fnm != ("m0", B["function_name_"]) or obj != ("m0", B["object_file_name_"]):
            out.append("the function or object file is not copied")
        if s0["bk"]:
            if pa != ("m0", B["ptr_"]):
                out.append("the path is not copied")
        elif fin(A["filename_"]) != ("m0", B["filename_"]):
            out.append("the address is not copied")
        if bit(B["known_"]) != s0["bk"] or fin(B["filename_"]) != ("m0", B["filename_"]) or fin(B["line_"]) != ("m0", B["line_"]) or pb != ("m0", B["ptr_"]) \
           or fin(B["function_name_"]) != ("m0", B["function_name_"]):
            out.append("the source changes")
    if op in ("self", "keep"):
        for m in ("known_", "filename_", "line_", "ptr_", "function_name_", "object_file_name_"):
            if (fin(A[m]) != ("m0", A[m])) if m != "known_" else (k != s0["k"]):
                out.append("the location changes")
    return out


def reader(ctx, fn, offs):
    known = ("m0", ("+", ("g", "l_a"), offs["known_"]))
    r = Op({known: 0}, offs, True)
    fl = analyse(fn, r)
    if fn.base in ("w_r_unknown", "w_r_delayed"):
        r.bad = []          # the address of a location that is not known
    for ins, m in r.bad[:1]:
        ctx.violation("reader|%s|%s" % (fn.base, m), "%s uses %s of a location that is not known" % (fn.base[4:], m), ins.where())
    if not r.bad:
        ctx.ok("%s uses neither path, file name nor line of an unknown location" % fn.base[4:])
    r = Op({known: 1}, offs)
    fl = analyse(fn, r)
    for st, ins, v in r.rets:
        ch = {a for a in st.p[0] if fl.root(a) == ("g", "l_a")}
        if ch:
            ctx.violation("reader|%s|write" % fn.base, "%s changes the location" % fn.base[4:], ins.where())


class Look(Sym):
    max_states = 60000

    def memset(self, fl, st, ins, dst, v, n):
        if dst == ("a", 0) and v == ("c", 0):
            self.event(st, "zero")

    def memcpy(self, fl, st, ins, dst, src, n):
        if dst == ("a", 0) and src[0] == "g":
            g = fl.fn.prog.globals.get(src[1], {}) if hasattr(fl.fn, "prog") else {}
            self.event(st, "zero" if not any(self.nonzero(x) for x in [g.get("init")]) else "init")

    def nonzero(self, x):
        return "'c'" in re.sub(r"\{'c': 0\}", "", repr(x))

    def known(self, fl, st, ins, args, c):
        if c == "dwarf_lineno":
            a = args[1]
            t = fl.fresh(st, ins)
            self.event(st, "lineno", t)
            fl.mem_store(st, a, ("o", "line"), None)
            fl.wd[("o", "line")] = 32
            return ("val", t)
        return ("pure",)


def lookups(ctx, prog):
    fns = [f for f in prog.fns.values() if f.base.endswith("SymbolRange::lookup_location") and f.blocks]
    if not fns:
        raise Broken("anchor vanished: SymbolRange::lookup_location")
    R = "libcwd::LocationLookupResult"
    cls = [n for n in prog._recname if n.endswith("LocationLookupResult") and "Inline" not in n]
    if not cls:
        raise Broken("anchor vanished: LocationLookupResult")
    o = {m: prog.offset(cls[0], m) for m in ("filepath", "line", "known")}
    for fn in fns:
        ctx.analysed(fn)
        r = Look()
        fl = analyse(fn, r)
        bad = False
        for st, ins, v in r.rets:
            ctx.count("lookups")
            res = ("a", 0)
            kn = r.final(fl, st, fl.mk_add(res, o["known"]))
            if any(e[0] == "zero" for e in r.events(st)) and (kn is None or kn[0] == "m0"):
                continue
            if kn is None or kn[0] == "m0":
                bad = True
                ctx.violation("lookup|unset", "the lookup does not say whether the location is known", ins.where(), st.path())
                continue
            s = fl.possible(st, kn, 8)
            if tuple(s) == ((0, 0),):
                continue
            fp = r.final(fl, st, fl.mk_add(res, o["filepath"]))
            ps = fl.possible(st, fp, 64) if fp is not None else ((0, 0),)
            if fp is None or fp[0] == "m0" or (ps and ps[0][0] == 0):
                bad = True
                ctx.violation("lookup|nofile", "the lookup says known although there may be no file", ins.where(), st.path())
            ln = r.final(fl, st, fl.mk_add(res, o["line"]))
            if ln is None or ln[0] == "m0":
                bad = True
                ctx.violation("lookup|noline", "the lookup says known although there is no line", ins.where(), st.path())
            okl = [e for e in r.events(st) if e[0] == "lineno" and tuple(fl.possible(st, e[1], 32)) == ((0, 0),)]
            if not okl and ln is not None and ln == ("o", "line"):
                bad = True
                ctx.violation("lookup|badline", "the lookup says known although reading the line failed", ins.where(), st.path())
        if not bad:
            ctx.ok("%s says known only with a file and a line" % fn.dem)
