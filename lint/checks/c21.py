"""Every handle that looking up debug information takes is given back.

Each function that takes one (a file descriptor, an ELF, DWARF or libdwfl handle, the scopes of an address, memory) is followed
with its helpers inlined on every path, each acquisition succeeding and failing.  Where the function returns, everything it
took was given back once, or is kept: a descriptor and DWARF handle by the object file, from every state that may be in, and a
name by the symbol table only if the table took it.  Nothing is used after it was given back, nor what was obtained from it
(sections, strings, modules), and none of that is put in the symbol table.  Opening debug information never leaves the object
file in the state 'not tried yet', and its destructor leaves nothing open.  What the scoped marker
objects switch on is off again where a function returns or is left by an exception."""
from core import *
from flow import Rule, analyse, C, width

FLOORS = {"acquisitions": 6, "paths": 20, "marked functions": 3}
TECHNIQUE = "path-sensitive ownership typestate of descriptors, ELF, DWARF and libdwfl handles"
NOTE = "handles are followed on all returning paths; leaving load_elf_function_symbols by an exception (out of memory) is not judged, nor are the handles of std::fstream objects"
# function: (kind, value that means failure, argument the new handle depends on)
ACQ = {"open": ("descriptor", -1, None), "open64": ("descriptor", -1, None), "openat": ("descriptor", -1, None), "creat": ("descriptor", -1, None), "dup": ("descriptor", -1, None), "fcntl": None,
       "elf_begin": ("ELF handle", 0, 0), "elf_memory": ("ELF handle", 0, None), "dwarf_begin": ("DWARF handle", 0, 0), "dwarf_begin_elf": ("DWARF handle", 0, 0),
       "dwfl_begin": ("libdwfl session", 0, None), "fopen": ("stream", 0, None), "malloc": ("memory", 0, None), "strdup": ("memory", 0, None), "calloc": ("memory", 0, None)}
REL = {"close": "descriptor", "elf_end": "ELF handle", "dwarf_end": "DWARF handle", "dwfl_end": "libdwfl session", "fclose": "stream", "free": "memory"}
CLS = "libcwd::dwarf::ObjectFileData::"
FD, HD = CLS + "dwarf_fd_", CLS + "dwarf_handle_"
NOTTRIED = -2
TABLE = r"::(add_function_symbol_range|insert_function_symbol_range)$"


class Own(Rule):
    """p: held (term, status), members (descriptor, handle), derived (term, owner), tainted memory (address, owner), slots (address, term)"""
    merge = True
    max_states = 4000
    unroll = 1

    def __init__(self, ctx, fn, initial=(C(NOTTRIED), C(0)), own=()):
        self.ctx, self.fn, self.initial, self.own = ctx, fn, initial, own
        self.bad, self.n, self.acq = {}, 0, set()

    def start(self, fl, st):
        for t in self.initial:
            if t[0] == "res":
                fl.wd[t] = 32 if t[1] == "descriptor" else 64
                self.live(fl, st, t)
        self.put(st, held=tuple((t, "live") for t in self.initial if t[0] == "res"), fd=self.initial[0], hd=self.initial[1], drv=(), taint=(), slot=(), parent=())

    def live(self, fl, st, t):
        if t[1] == "descriptor":
            fl.assume(st, fl.mk_icmp("slt", t, C(0), 32), False)
        else:
            fl.assume(st, fl.mk_icmp("ne", t, C(0), 64), True)

    def put(self, st, **kw):
        d = dict(st.p or ())
        d.update(kw)
        st.p = tuple(sorted(d.items()))

    def get(self, st, k):
        return dict(st.p)[k]

    def set(self, st, k, key, v):
        d = dict(self.get(st, k))
        d[key] = v
        self.put(st, **{k: tuple(sorted(d.items(), key=repr))})

    def keep(self, fl, t):
        return isinstance(t, tuple) and (t[0] == "res" or len(t) > 1 and any(self.keep(fl, x) for x in t[1:]))

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), st.path()))

    def owner(self, fl, st, t):
        r = fl.root(t) if isinstance(t, tuple) else t
        if r[0] == "res":
            return r
        return dict(self.get(st, "drv")).get(r)

    def uses(self, fl, st, ins, t, c):
        o = self.owner(fl, st, t)
        h = dict(self.get(st, "held"))
        direct = o is not None and fl.root(t) == o
        while o is not None:
            if h.get(o) == "released" and not (direct and REL.get(c) == o[1]):
                self.report(st, ins, "uses a %s after it was released" % o[1] if direct else "uses what belongs to a %s after that was released" % o[1])
            if REL.get(c) == o[1]:
                break
            o = dict(self.get(st, "parent")).get(o)
            direct = False

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.startswith("llvm."):
            return ("pure",)
        c = c.replace("std::", "") if c in ("std::free", "std::malloc") else c
        for a in args:
            if isinstance(a, tuple):
                self.uses(fl, st, ins, a, c)
        if c == "dwarf_getscopes" or c == "dwarf_getscopes_die":
            return self.scopes(fl, st, ins, args)
        if c in ACQ and ACQ[c]:
            kind, fail, dep = ACQ[c]
            t = ("res", kind, ins.id)
            w = 32 if kind == "descriptor" else 64
            fl.wd[t] = w
            self.acq.add((self.fn.dem, ins.id))
            if dict(self.get(st, "held")).get(t) == "live":
                self.report(st, ins, "loses a %s" % kind)
            a, b = st.copy(), st.copy()
            self.set(a, "held", t, "live")
            if dep is not None:
                o = self.owner(fl, st, args[dep])
                if o:
                    self.set(a, "parent", t, o)
                elif kind != "memory":
                    self.report(st, ins, "opens a %s on something that is not open" % kind)
            self.live(fl, a, t)
            return [(a, t), (b, C(fail))]
        if c in REL:
            a = args[0]
            if a[0] == "res":
                if dict(self.get(st, "held")).get(a) == "released":
                    self.report(st, ins, "releases a %s twice" % a[1])
                elif dict(self.get(st, "held")).get(a) == "kept":
                    self.report(st, ins, "releases a %s that is kept" % a[1])
                if REL[c] != a[1] and not (REL[c] == "memory" and a[1] == "scope array"):
                    self.report(st, ins, "releases a %s with %s()" % (a[1], c))
                self.set(st, "held", a, "released")
            elif a[0] == "c":
                if c == "close":
                    self.report(st, ins, "closes a descriptor that is not open")
                elif a != C(0):
                    self.report(st, ins, "releases something else")
            elif c != "free":
                self.report(st, ins, "releases a %s that was not obtained here" % REL[c])
            return ("pure",)
        if re.search(TABLE, c):
            o = [self.owner(fl, st, a) for a in args]
            for a, x in zip(args, o):
                if x is not None and x[1] not in ("memory",):
                    self.report(st, ins, "puts what belongs to a %s in the symbol table" % x[1])
            mine = [x for x in o if x is not None and x[1] == "memory"]
            if mine:
                a, b = st.copy(), st.copy()
                for x in mine:
                    self.set(a, "held", x, "kept")
                return [(a, C(1)), (b, C(0))]
            return None
        if re.match(r"(elf|gelf|dwarf|dwfl)_", c):
            o = next((x for x in (self.owner(fl, st, a) for a in args if isinstance(a, tuple)) if x is not None and x[1] != "scope array"), None)
            if o is not None:
                self.set(st, "drv", ("i", ins.id), o)
                for a in args:
                    if isinstance(a, tuple) and a[0] == "al":
                        self.set(st, "taint", a, o)
            return None
        return None

    def scopes(self, fl, st, ins, args):
        t = ("res", "scope array", ins.id)
        fl.wd[t] = 64
        self.acq.add((self.fn.dem, ins.id))
        if args[2][0] != "al":
            raise Broken("the scopes of an address are not put in a local variable")
        a, b = st.copy(), st.copy()
        self.set(a, "held", t, "live")
        self.set(a, "slot", args[2], t)
        self.live(fl, a, t)
        n = ("i", ins.id)
        fl.wd[n] = 32
        fl.retire(a, n) if hasattr(fl, "retire") else None
        fl.assume(a, fl.mk_icmp("slt", n, C(0), 32), False)
        return [(a, n), (b, C(-1))]

    def load(self, fl, st, ins, a, f):
        if f == FD and fl.root(a) in self.own:
            return ("val", self.get(st, "fd"))
        if f == HD and fl.root(a) in self.own:
            return ("val", self.get(st, "hd"))
        s = dict(self.get(st, "slot"))
        if a in s:
            return ("val", s[a])
        tt = dict(self.get(st, "taint"))
        if a in tt:
            t = ("drv", ins.id)
            fl.wd[t] = 64
            self.set(st, "drv", t, tt[a])
            return ("val", t)

    def store(self, fl, st, ins, a, v, f):
        if f in (FD, HD):
            if fl.root(a) not in self.own:
                return
            k = "fd" if f == FD else "hd"
            if v[0] == "c" or v[0] == "res":
                self.put(st, **{k: v})
            else:
                self.report(st, ins, "stores something else as %s of the object file" % ("descriptor" if k == "fd" else "DWARF handle"))
            return
        if v[0] == "res" and v[1] == "memory" and fl.root(a)[0] != "al":
            self.set(st, "held", v, "kept")
        if a in dict(self.get(st, "slot")):
            self.set(st, "slot", a, v)
        if a in dict(self.get(st, "taint")):
            self.put(st, taint=tuple(x for x in self.get(st, "taint") if x[0] != a))

    def ret(self, fl, st, ins, v):
        self.n += 1
        g = dict(st.p)
        for t, s in g["held"]:
            if s == "live":
                if t in (g["fd"], g["hd"]) or v == t:
                    continue
                self.report(st, ins, "returns without releasing a %s" % t[1])
        for k, what in ((g["fd"], "descriptor"), (g["hd"], "DWARF handle")):
            if k[0] == "res" and dict(g["held"]).get(k) == "released":
                self.report(st, ins, "leaves a %s that was released with the object file" % what)
        if isinstance(v, tuple):
            o = self.owner(fl, st, v)
            if o is not None and v != o and dict(g["held"]).get(o) == "released":
                self.report(st, ins, "returns what belongs to a released %s" % o[1])
        if (g["hd"][0] == "res") != (g["fd"][0] == "res"):
            self.report(st, ins, "leaves the object file with a descriptor but no DWARF handle, or the other way around")
        self.after(fl, st, ins, g)

    def after(self, fl, st, ins, g):
        pass


class Opening(Own):
    def after(self, fl, st, ins, g):
        if g["fd"] == C(NOTTRIED):
            self.report(st, ins, "does not remember that opening debug information was tried")
        elif g["fd"][0] == "c" and g["fd"][1] >= 0:
            self.report(st, ins, "marks the object file open without a descriptor")


class Closing(Own):
    def after(self, fl, st, ins, g):
        if g["fd"][0] == "res" and dict(g["held"])[g["fd"]] == "live" or g["hd"][0] == "res" and dict(g["held"])[g["hd"]] == "live":
            self.report(st, ins, "leaves debug information open")


class Scoped(Rule):
    """p = (lock marker set, objects forced on, saved forced state of scoped objects)"""
    merge = True
    max_states = 4000
    unroll = 1
    follow_unwind = True

    def __init__(self, ctx, fn):
        self.ctx, self.fn, self.bad, self.n, self.used = ctx, fn, {}, 0, False

    def start(self, fl, st):
        st.p = (None, (), ())

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), st.path()))

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.startswith("llvm."):
            return ("pure",)
        if c.endswith("::force_on") and args[1][0] in ("al", "+"):
            self.used = True
            st.p = (st.p[0], tuple(sorted(st.p[1] + ((args[0], args[1]),))), st.p[2])
            return ("pure",)
        if c.endswith("::restore") and args[1][0] in ("al", "+"):
            self.used = True
            if (args[0], args[1]) not in st.p[1]:
                self.report(st, ins, "restores what was not forced on")
            st.p = (st.p[0], tuple(x for x in st.p[1] if x != (args[0], args[1])), st.p[2])
            return ("pure",)
        m = re.search(r"::(~?)ForceLoadingDebugOutput$", c)
        if m:
            self.used = True
            k = (("ForceLoadingDebugOutput",), args[0])
            if m.group(1) and k not in st.p[1]:
                self.report(st, ins, "destroys a scoped object twice")
            st.p = (st.p[0], tuple(sorted((set(st.p[1]) - {k}) if m.group(1) else set(st.p[1]) | {k})), st.p[2])
            return ("pure",)
        if c.endswith("Channel::is_on") or c.endswith("::instance"):
            return ("pure",)
        return None

    def store(self, fl, st, ins, a, v, f):
        if a[0] == "g" and "s_object_files_is_locked_" in a[1] or a[0] != "al" and self.marker(a):
            self.used = True
            if v[0] != "c":
                self.report(st, ins, "sets the lock marker to something unknown")
            elif v[1] and st.p[0]:
                self.report(st, ins, "sets the lock marker twice")
            st.p = (bool(v[1]), st.p[1], st.p[2])

    def marker(self, a):
        return "s_object_files_is_locked_" in repr(a)

    def keep(self, fl, t):
        return True

    def done(self, fl, st, ins, how):
        self.n += 1
        if st.p[0]:
            self.report(st, ins, "leaves the lock marker set when it %s" % how)
        if st.p[1]:
            self.report(st, ins, "leaves forced output on when it %s" % how)

    def ret(self, fl, st, ins, v):
        self.done(fl, st, ins, "returns")

    def resume(self, fl, st, ins):
        self.done(fl, st, ins, "throws")


class Force(Rule):
    """p = (whether to force, what was forced on or restored)"""
    def __init__(self, ctx, fn, word):
        self.ctx, self.fn, self.word, self.bad, self.n, self.sets = ctx, fn, word, {}, 0, set()

    report = Scoped.report

    def start(self, fl, st):
        st.p = (None, ())

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        m = re.search(r"::(force_on|restore)$", c)
        if m:
            if m.group(1) != self.word:
                self.report(st, ins, "calls %s()" % m.group(1))
            st.p = (st.p[0], st.p[1] + ((args[0], args[1]),))
        return ("pure",)

    def load(self, fl, st, ins, a, f):
        if fl.root(a) == ("a", 0) and width(ins.get("t")) == 8 and st.p[0] is None:
            t = ("F", "forced")
            fl.wd[t] = 8
            st.p = (t, st.p[1])
            return ("val", t)

    def store(self, fl, st, ins, a, v, f):
        if a == ("a", 0) and v[0] != "g":
            st.p = (v, st.p[1])

    def keep(self, fl, t):
        return True

    def ret(self, fl, st, ins, v):
        self.n += 1
        if st.p[0] is None:
            self.report(st, ins, "does not look whether output is forced")
            return
        q = fl.possible(st, st.p[0], 8)
        if any(a <= 0 <= b for a, b in q):
            if st.p[1] or q != ((0, 0),):
                self.report(st, ins, "forces or restores output that it should not")
        else:
            if len(set(st.p[1])) != len(st.p[1]):
                self.report(st, ins, "does the same twice")
            self.sets.add(tuple(sorted(st.p[1])))


def run(ctx):
    roots = ["get_debug_info_path", "lookup_innermost_inline_scope", "load_elf_function_symbols", "open_dwarf", "close_dwarf", "unregister_object_file_ranges", "load_dwarf_symbols", "~ObjectFileData"]
    ns = r"^libcwd::dwarf::"
    noin = [r"ObjectFileName::", r"DebugObject_ThreadSpecificData::", r"::instance$", r"(find|emplace|insert|erase|lower_bound|upper_bound|_M_\w+)$", TABLE, "load_function_symbols$", "ForceOn", r"::(force_on|restore)$", r"Channel::is_on",
            r"::(lookup_innermost_inline_scope|load_elf_function_symbols|open_dwarf|realize_symbols)(\[abi:cxx11\])?$", r"innermost_inline_name_by_pc$", r"iterate_program_headers$", r"^libcwd::(initialize|location)", "DebugObject::", "ensure_initialization$", "ForceLoadingDebugOutput::~?ForceLoadingDebugOutput$"]
    prog = inl(dump=[ns + r".*(" + "|".join(roots) + r")(\[|$)", ns, r"^(dlopen|dlclose)$"], noinline=noin)
    fns = {f.dem: f for f in prog.fns.values() if f.dem.startswith("libcwd::dwarf::") or f.base in ("dlopen", "dlclose")}
    total = {}

    def one(name):
        fs = [f for f in fns.values() if f.base.split("[")[0].endswith("::" + name)]
        if not fs:
            raise Broken("anchor vanished: " + name)
        return fs[0]

    def finish(what, r):
        ctx.count("paths", r.n)
        if not r.n:
            raise Broken("no path through " + what)
        for m, (w, p) in r.bad.items():
            ctx.violation(what + "|" + m, "%s %s" % (what, m), w, p)
        if not r.bad:
            ctx.ok("%s: %d paths" % (what, r.n))
        for a in getattr(r, "acq", ()):
            total[a] = 1

    D, H = ("res", "descriptor", 0), ("res", "DWARF handle", 0)
    states = {"not tried": (C(NOTTRIED), C(0)), "failed": (C(-1), C(0)), "open": (D, H)}
    me = (("a", 0),)
    for name, cls, sts in (("open_dwarf", Opening, ("not tried",)), ("close_dwarf", Closing, states), ("~ObjectFileData", Closing, states), ("unregister_object_file_ranges", Own, states)):
        fn = one(name)
        ctx.analysed(fn)
        for s in sts:
            r = cls(ctx, fn, states[s], me)
            analyse(fn, r, 200000)
            finish("%s() of an object file in the state '%s'" % (name, s), r)
    for fn in sorted(fns.values(), key=lambda f: f.dem):
        n = fn.base.split("[")[0].rsplit("::", 1)[-1]
        if n in ("open_dwarf", "close_dwarf", "~ObjectFileData", "unregister_object_file_ranges"):
            continue
        calls = {i.callee for b in fn.order for i in fn.blocks[b] if i.is_call()}
        if any(ACQ.get((c or "").replace("std::", "")) or c == "dwarf_getscopes" for c in calls):
            r = Own(ctx, fn)
            ctx.analysed(fn)
            analyse(fn, r, 200000)
            finish(n + "()", r)
    ctx.count("acquisitions", len(total))
    sets = []
    for n, word in (("ForceLoadingDebugOutput", "force_on"), ("~ForceLoadingDebugOutput", "restore")):
        r = Force(ctx, one(n), word)
        ctx.analysed(r.fn)
        analyse(r.fn, r, 20000)
        sets.append((r, r.sets))
        if len(r.sets) != 1 or r.sets == {()}:
            r.bad["does not do the same on every path on which output is forced"] = (r.fn.loc(), ())
        if len(sets) == 2 and sets[0][1] != sets[1][1]:
            r.bad["does not restore what was forced on"] = (r.fn.loc(), ())
        finish(n + "()", r)
    for fn in sorted(fns.values(), key=lambda f: f.dem):
        n = fn.base.split("[")[0].rsplit("::", 1)[-1]
        ins = [i for b in fn.order for i in fn.blocks[b]]
        mine = any(i.is_call() and (i.callee or "").endswith(("::force_on", "::restore", "::ForceLoadingDebugOutput")) for i in ins) or any(i.op == "store" and "s_object_files_is_locked_" in fn.path(i.ops[1]) for i in ins)
        if not mine or "ForceLoadingDebugOutput::" in fn.dem or "ScopedTracker::" in fn.dem:
            continue
        r = Scoped(ctx, fn)
        ctx.analysed(fn)
        analyse(fn, r, 200000)
        if r.used:
            ctx.count("marked functions")
        finish(n + "()", r)
