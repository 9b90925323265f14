"""Locksets and lifetimes of the access objects (rat: read, wat: write) of the thread-safe registries."""
from output import *

LOCKS = ("cwd_rdlock", "cwd_wrlock", "cwd_rdunlock", "cwd_wrunlock", "cwd_rd2wr", "cwd_wr2rd", "cwd_rdata", "cwd_wdata", "cwd_rd2wryield")
STOPS = r"^libcwd::(DebugObject_ThreadSpecificData::(start|finish|fatal_finish)|core_dump|Location::.*|_private_::ThreadSpecificData::\w+|" \
        r"DebugObject::NS_init|ST_initialize_globals|_private_::.*initialize\w*|initialize)$"
REG_NOINL = NOINL + [r"load_dwarf_symbols$", r"load_elf_function_symbols$", r"get_debug_info_path$", r"realize_symbols$", r"::NS_init$", r"^libcwd::initialize$",
                     r"iterate_program_headers$", r"current_executable_path$", r"ObjectFileData::ObjectFileData$", r"ObjectFileData::~ObjectFileData$",
                     r"ForceLoadingDebugOutput", r"ObjectFile::ObjectFile$", r"^libcwd::core_dump$", r"flags_to_string$", r"test_main_reached"]


def acc(rp, mangled):
    """type of the registry whose access object is constructed or destroyed by this function"""
    b = rp.base(mangled) if mangled else ""
    m = re.search(r"^threadsafe::Unlocked<(.*), threadsafe::policy::.*>::(rat|wat)::~?(rat|wat)$", b)
    return m.group(1) if m else None


def roots(rp):
    """functions that hold an access object: they construct one, or get one from a function that hands it out"""
    ctor = {}
    for f in rp.fns.values():
        for i in f.calls():
            c = i.get("callee")
            t = acc(rp, c)
            if t and not rp.base(c).rsplit("::", 1)[1].startswith("~"):
                ctor.setdefault(f.name, set()).add(t)
    if not ctor:
        raise Broken("no access object of a registry is constructed")
    callers = {}
    for f in rp.fns.values():
        for i in f.calls():
            if i.get("callee"):
                callers.setdefault(i.get("callee"), set()).add(f.name)
    types = {k: set(v) for k, v in ctor.items()}
    out = {}
    work = list(types)
    while work:
        x = work.pop()
        f = rp.fns[x]
        if f.base.startswith("threadsafe::"):
            continue
        ends = {acc(rp, i.get("callee")) for i in f.calls() if i.get("callee") and "::~" in rp.base(i.get("callee"))}
        if types[x] - ends:       # hands the access object out to its callers
            for c in callers.get(x, ()):
                if types.get(c, set()) >= types[x]:
                    continue
                types.setdefault(c, set()).update(types[x])
                work.append(c)
            continue
        out[x] = f
    return out, types


def key(t):
    """what identifies a registry: the classes of this library in the spelling of its type"""
    return tuple(sorted(set(re.findall(r"libcwd::(?:\(anonymous namespace\)::|\w+::)*(\w+)", t or "")))) or (t,)


def closure(rp, base, stops=STOPS):
    """functions that reach a function of base, not counting the way through debug output"""
    rx = re.compile(stops)
    callers = {}
    for f in rp.fns.values():
        for i in f.calls():
            if i.get("callee"):
                callers.setdefault(i.get("callee"), set()).add(f.name)
    out = set(base)
    work = list(base)
    while work:
        for c in callers.get(work.pop(), ()):
            if c not in out and c in rp.fns and not rx.search(rp.fns[c].base):
                out.add(c)
                work.append(c)
    return out


def slices(fn):
    """for every data access (cwd_rdata/cwd_wdata) the instructions that use a pointer or iterator into that data"""
    users = {}
    for i in fn.instrs():
        ops = list(i.ops)
        if i.op == "phi":
            ops = [v for v, _ in i.get("in")]
        for o in ops:
            if isinstance(o, int):
                users.setdefault(o, []).append(i)
    uses = {}

    def base_alloca(v):
        x = fn.defi(v)
        while x is not None and x.op in ("getelementptr", "bitcast"):
            x = fn.defi(x.ops[0])
        return x if x is not None and x.op == "alloca" else None
    for d in fn.calls(r"^cwd_[rw]data$"):
        der, work = {d.id}, [d.id]
        al = set()
        while work:
            v = work.pop()
            for u in users.get(v, ()):
                add = None
                if u.op in ("getelementptr", "bitcast", "phi", "select", "freeze", "insertvalue", "extractvalue"):
                    if u.get("t") in (None, "ptr") or not re.match(r"i\d+$", u.get("t") or ""):
                        add = u.id
                elif u.op == "load":
                    uses.setdefault(u.id, {}).setdefault(d.id, "load")
                    a = base_alloca(u.ops[0])
                    if a is not None and a.id in al and (u.get("t") == "ptr" or not re.match(r"i\d+$", u.get("t") or "")):
                        del uses[u.id][d.id]
                        add = u.id
                elif u.op == "store":
                    if u.ops[1] == v or fn.strip(u.ops[1]) == v:
                        if base_alloca(u.ops[1]) is None:
                            uses.setdefault(u.id, {})[d.id] = "store"
                    if u.ops[0] == v:
                        a = base_alloca(u.ops[1])
                        if a is not None and a.id not in al:
                            al.add(a.id)
                            der.add(a.id)
                            work.append(a.id)
                elif u.is_call():
                    c = u.callee or "indirect"
                    if c.startswith(("llvm.", "cwd_")):
                        continue
                    uses.setdefault(u.id, {})[d.id] = "call"
                    if c.startswith(("std::", "__gnu_cxx::")) and (u.get("t") == "ptr" or (u.get("t") or "").startswith("{")):
                        add = u.id
                    if c.startswith(("std::", "__gnu_cxx::")) and u.get("sret"):
                        a = base_alloca(u.ops[0])
                        if a is not None and a.id not in al:
                            al.add(a.id)
                            der.add(a.id)
                            work.append(a.id)
                if add is not None and add not in der:
                    der.add(add)
                    work.append(add)
    # pointers to a local iterator are only uses of the data once something was stored in it; that is the same instruction set
    return {k: v for k, v in uses.items() if v}


def canon(xs):
    return tuple(sorted(set(xs), key=repr))


class Locks(Rule):
    """p = (held, valid, looked): held = ((X, mode, type)...), valid = ((data access id, X)...)"""
    merge = True
    follow_unwind = True

    def __init__(self, ctx, prog, fn, reach, reach_lock):
        self.ctx, self.prog, self.fn = ctx, prog, fn
        self.uses = slices(fn)
        self.reach = reach            # names of functions that search for debug info
        self.reach_lock = reach_lock  # type -> names of functions that lock a registry of that type
        self.v = []
        self.types = {}
        self.order = set()
        self.flags = set()
        self.extra = []

    def start(self, fl, st):
        st.p = ((), (), ())

    def keep(self, fl, t):
        return t in self.flags

    def keep_mem(self, fl, a, f):
        return bool(f) and f.endswith(("::dwarf_fd_", "::elf_symbols_loaded_"))

    def bad(self, ins, msg):
        if (ins, msg) not in self.v:
            self.v.append((ins, msg))

    def held(self, st, x=None):
        return [h for h in st.p[0] if x is None or h[0] == x]

    def use(self, fl, st, ins):
        ds = self.uses.get(ins.id)
        if not ds:
            return
        ok = [d for d in ds if any(v[0] == d for v in st.p[1])]
        self.ctx.count("uses of registry data")
        if not ok:
            k = ds[next(iter(ds))]
            self.bad(ins, "uses data of a registry after its lock was released" if k != "none" else "")
        elif ins.op == "store":
            if not any(self.fn.ins[d].callee == "cwd_wdata" for d in ok):
                self.bad(ins, "modifies a registry under a read lock")

    def load(self, fl, st, ins, a, f):
        self.use(fl, st, ins)
        if f and f.endswith(("::dwarf_fd_", "::elf_symbols_loaded_")):
            v = fl.mem_load(st, a, f, ins)
            self.flags.add(v)
            return ("val", v)
        return None

    def store(self, fl, st, ins, a, v, f):
        self.use(fl, st, ins)
        if fl.root(a) == ("g", "_ZN6libcwd9_private_11WST_max_lenE") or (ins.ops and "WST_max_len" in fl.fn.path(ins.ops[1])):
            self.width(fl, st, ins)
        return None

    def rmw(self, fl, st, ins, addr, fld, old, new):
        if "WST_max_len" in fl.fn.path(ins.ops[0]):
            self.width(fl, st, ins)

    def width(self, fl, st, ins):
        self.ctx.count("changes of the label width")
        if not any(h[1] == "w" for h in st.p[0]):
            self.bad(ins, "changes the common label width without the write lock on the list of channels")

    def forget(self, fl, st, x):
        for a in [a for a in st.mem if fl.root(a) == fl.root(x) and a != x]:
            del st.mem[a]
        r = fl.root(x)
        if x in st.mem and r == x:
            pass

    def call(self, fl, st, ins, args):
        c = ins.callee or "indirect"
        held, valid, looked = st.p
        if c in LOCKS:
            x = args[0]
            h = self.held(st, x)
            if c in ("cwd_rdlock", "cwd_wrlock"):
                self.ctx.count("lock acquisitions")
                if h:
                    self.bad(ins, "locks a registry that this thread has locked already")
                self.forget(fl, st, x)
                m = re.search(r"\bT = (.*), POLICY = ", fl.fn.string(ins.ops[1]) or "")
                if m:
                    self.types[x] = key(m.group(1))
                    for y, _ in held:
                        self.order.add((self.types.get(y), self.types[x], ins.where()))
                        if self.types.get(y) == self.types[x] and y != x:
                            self.bad(ins, "locks a list while it holds the lock on another list of that kind")
                if not h:
                    st.p = (canon(held + ((x, c[4]),)), valid, looked)
            elif c == "cwd_rd2wr":
                self.ctx.count("lock upgrades")
                if not h or h[0][1] != "r":
                    self.bad(ins, "upgrades a lock that is not held for reading")
                st.p = (tuple((y, "w") if y == x else (y, m) for y, m in held), valid, looked)
            elif c == "cwd_wr2rd":
                st.p = (tuple((y, "r") if y == x else (y, m) for y, m in held), valid, looked)
            elif c in ("cwd_rdunlock", "cwd_wrunlock"):
                if not h:
                    self.bad(ins, "releases a lock that is not held")
                st.p = (tuple(z for z in held if z[0] != x), tuple(v for v in valid if v[1] != x),
                        canon((l[0], "before") for l in looked))
            elif c == "cwd_rd2wryield":
                if h:
                    self.bad(ins, "yields to a writer while it holds the lock")
            else:
                self.ctx.count("data accesses")
                if not h:
                    self.bad(ins, "uses the data of a registry without holding its lock")
                elif c == "cwd_wdata" and h[0][1] != "w":
                    self.bad(ins, "modifies a registry without holding its write lock")
                v = (ins.id, x)
                if v not in valid:
                    st.p = (held, canon(valid + (v,)), looked)
                return ("val", x)
            return ("pure",)
        self.use(fl, st, ins)
        held, valid, looked = st.p
        if held:
            n = ins.get("callee")
            if n in self.reach:
                self.bad(ins, "calls %s, which searches for debug information, while it holds the lock on a list" % c)
            self.locked_call(fl, st, ins, args, c, n)
        if re.search(r"::load_(dwarf_symbols|elf_function_symbols)$", c):
            self.loads(fl, st, ins, args, c)
        ds = self.uses.get(ins.id)
        if ds:
            self.registry_op(fl, st, ins, args, c)
        if re.search(STOPS, c) or c in ("abort", "exit", "_exit", "std::terminate"):
            if "fatal_finish" in c or c in ("abort", "libcwd::core_dump", "exit", "_exit", "std::terminate"):
                st.dead = True
                return None
            return ("pure",)
        return None

    def locked_call(self, fl, st, ins, args, c, n):
        for t in self.reach_lock:
            if n in self.reach_lock[t]:
                for x, m in st.p[0]:
                    if self.types.get(x) != t:
                        self.order.add((self.types.get(x), t, ins.where()))
                    if self.types.get(x) == t:
                        self.bad(ins, "calls %s, which locks a list that this thread holds already" % c)

    INSERT = r"::(push_back|emplace_back|insert|emplace|try_emplace|insert_or_assign|push_front|emplace_hint)(<.*>)?$"
    LOOK = r"::(find|lower_bound|upper_bound|begin|cbegin|count|contains|operator\[\]|at|size|empty)(<.*>)?$|^std::(find|find_if|lower_bound|any_of|none_of)"

    def loads(self, fl, st, ins, args, c):
        """symbols are loaded once: under the write lock, after finding in the same critical section that they were not"""
        m = "dwarf_fd_" if "load_dwarf" in c else "elf_symbols_loaded_"
        self.ctx.count("symbol loads")
        x = args[0]
        if not any(h == (x, "w") for h in st.p[0]):
            self.bad(ins, "calls %s without holding the write lock" % c)
        r = self.prog._recname.get("libcwd::dwarf::ObjectFileData")
        o = self.prog._offset(r, m) if r else None
        if o is None:
            raise Broken("anchor vanished: ObjectFileData::" + m)
        t = st.mem.get(fl.mk_add(x, o))
        if t is None or fl.const_of(st, t) is None and fl.const_of(st, fl._cast(st, "trunc", t, 1)) is None:
            self.bad(ins, "calls %s without having found, in the same critical section, that nothing was loaded yet" % c)

    def registry_op(self, fl, st, ins, args, c):
        held, valid, looked = st.p
        if re.search(self.LOOK, re.sub(r"\[abi:\w+\]", "", c)):
            self.ctx.count("lookups")
            if ("look", "now") not in looked:
                st.p = (held, valid, canon(looked + (("look", "now"),)))
        elif re.search(self.INSERT, re.sub(r"\[abi:\w+\]", "", c)):
            self.ctx.count("insertions")
            if ("look", "before") in looked and ("look", "now") not in looked and not self.consulted(ins):
                self.extra.append((ins, "inserts in a list although it looked for the element in another critical section"))

    def consulted(self, ins):
        """is the result of the insertion (whether it took place) looked at?"""
        if not re.search(r"::(insert|emplace|try_emplace)(<.*>)?$", re.sub(r"\[abi:\w+\]", "", ins.callee or "")):
            return False
        seen, work = set(), [ins.id]
        while work:
            v = work.pop()
            for i in self.fn.instrs():
                if i.id in seen:
                    continue
                ops = [a for a, _ in i.get("in")] if i.op == "phi" else list(i.ops)
                cond = i.get("cond")
                if cond == v:
                    return True
                if v in ops:
                    seen.add(i.id)
                    if i.op == "store" and i.ops[0] == v:
                        x = self.fn.defi(i.ops[1])
                        while x is not None and x.op == "getelementptr":
                            x = self.fn.defi(x.ops[0])
                        if x is not None and x.op == "alloca":
                            for j in self.fn.instrs():
                                if j.op == "load":
                                    y = self.fn.defi(j.ops[0])
                                    while y is not None and y.op == "getelementptr":
                                        y = self.fn.defi(y.ops[0])
                                    if y is x and width(j.get("t")) <= 8:
                                        work.append(j.id)
                    elif not i.is_call():
                        work.append(i.id)
        return False

    def ret(self, fl, st, ins, val):
        self.ctx.count("returns")
        if st.p[0]:
            self.bad(ins, "returns without releasing the lock")

    def resume(self, fl, st, ins):
        self.ctx.count("exceptional exits")
        if st.p[0]:
            self.bad(ins, "is left by an exception without releasing the lock")
