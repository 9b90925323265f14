"""The life of a thread's debug state, from the code that makes and releases it.

instance(), the guard that runs when a thread ends, the destructor and cleanup_routine() are each followed on every path.  A state
is made only when the thread has none, is the thread's before anything that can re-enter is called, and, unless it is the main
thread's, the guard that releases it is armed.  The guard deletes the state of a worker, once, never that of the main thread, and the
state stays the thread's until it is deleted and not a call longer.  Cleaning up runs once, and for each of the debug objects first
turns it off and forgets its data, and only then frees it.  Besides that, no function keeps the address of a thread's state in
memory that outlives it."""
from core import *
from flow import Rule, analyse, C

FLOORS = {"paths": 10, "debug objects": 8, "functions with a thread's state": 20}
TECHNIQUE = "path-sensitive lifetime typestate of the per-thread state, and an escape analysis of its address"
NOTE = "assumes, as the code does, that the main thread is the first to use the library; what other functions do with the state of their own thread is not judged"
TSD = "libcwd::_private_::ThreadSpecificData"
CUR, MAIN, NEW = ("F", "cur"), ("F", "main"), ("NEW",)


class Base(Rule):
    merge = False
    max_states = 10000
    unroll = 3

    def __init__(self, ctx, fn):
        self.ctx, self.fn, self.bad, self.n = ctx, fn, {}, 0

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), st.path()))

    def keep(self, fl, t):
        return True

    def put(self, st, **kw):
        d = dict(st.p or ())
        d.update(kw)
        st.p = tuple(sorted(d.items()))

    def get(self, st, k):
        return dict(st.p)[k]

    def glob(self, a):
        return a[0] == "g" and next((n for n in ("current_tsd", "main_thread_tsd") if re.search(r"\d%sE$" % n, a[1])), None)

    def begin(self, fl, st):
        for t in (CUR, MAIN, NEW):
            fl.wd[t] = 64
        fl.assume(st, fl.mk_icmp("ne", NEW, C(0), 64), True)

    def null(self, fl, st, t):
        q = fl.possible(st, t, 64)
        return True if q == ((0, 0),) else None if any(a <= 0 <= b for a, b in q) else False

    def load(self, fl, st, ins, a, f):
        g = self.glob(a)
        if g:
            return ("val", self.get(st, "cur" if g == "current_tsd" else "main"))


class Instance(Base):
    def start(self, fl, st):
        self.begin(fl, st)
        self.put(st, cur=CUR, main=MAIN, guard=False, made=0, inited=0, flag=False, again=False)

    def load(self, fl, st, ins, a, f):
        if a[0] == "g" and a[1] in self.tls and not self.glob(a):
            self.put(st, again=True)
        return super().load(fl, st, ins, a, f)

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.startswith("llvm.threadlocal"):
            return None
        if c.startswith("llvm.") or c == "__errno_location":
            return ("pure",) if c.startswith("llvm.") else None
        if c.endswith("current_tsd_cleanup_guard") or c in self.wrappers:
            if self.get(st, "made") and self.get(st, "cur") != NEW:
                self.report(st, ins, "calls something while the new state is not the thread's yet")
            self.put(st, guard=True)
            return ("pure",)
        if c == "operator new":
            self.put(st, made=self.get(st, "made") + 1)
            return ("val", NEW)
        if self.get(st, "made") and self.get(st, "cur") != NEW:
            self.report(st, ins, "calls something while the new state is not the thread's yet")
        if self.null(fl, st, CUR) is False:
            self.report(st, ins, "calls something although the thread has its state")
        if c.endswith("::debug_tsd_init"):
            if args[0] != NEW:
                self.report(st, ins, "initializes another state")
            if not self.get(st, "flag"):
                self.report(st, ins, "initializes the debug objects of a state that would not be cleaned up")
            self.put(st, inited=self.get(st, "inited") + 1)
        return ("pure",)

    def store(self, fl, st, ins, a, v, f):
        g = self.glob(a)
        if g == "current_tsd":
            if v != NEW or self.null(fl, st, CUR) is not True:
                self.report(st, ins, "replaces the state of the thread")
            self.put(st, cur=v)
        elif g == "main_thread_tsd":
            if v != NEW or self.null(fl, st, MAIN) is not True:
                self.report(st, ins, "replaces the state of the main thread")
            self.put(st, main=v)
        elif (f or "") == TSD + "::initialized_":
            self.put(st, flag=v == C(1))

    def ret(self, fl, st, ins, v):
        self.n += 1
        g = dict(st.p)
        if not g["made"]:
            if v != CUR or self.null(fl, st, CUR) is not False:
                self.report(st, ins, "returns something that is not the state of the thread")
            if g["guard"] or g["inited"] or g["cur"] != CUR or g["main"] != MAIN:
                self.report(st, ins, "changes something although the thread has its state")
            return
        if g["made"] != 1 or self.null(fl, st, CUR) is not True:
            self.report(st, ins, "makes another state for a thread that has one")
        if v != NEW or g["cur"] != NEW:
            self.report(st, ins, "does not return and keep the state that it made")
        if not g["flag"]:
            self.report(st, ins, "returns a state that would not be cleaned up")
        m = self.null(fl, st, MAIN)
        if m is None:
            self.report(st, ins, "does not look whether this is the main thread")
        elif m:
            if g["main"] != NEW:
                self.report(st, ins, "does not remember the state of the main thread")
        else:
            if not g["guard"]:
                self.report(st, ins, "makes a state for a worker thread without arming the guard that releases it")
            elif not g["again"]:
                self.report(st, ins, "makes a state that nothing releases when the guard of the thread has run already")
            if g["inited"] != 1:
                self.report(st, ins, "does not initialize the debug objects of a worker thread once")


class Guard(Base):
    def start(self, fl, st):
        self.begin(fl, st)
        self.put(st, cur=CUR, main=MAIN, cleaned=False, freed=0)

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.startswith("llvm."):
            return None if c.startswith("llvm.threadlocal") else ("pure",)
        if self.get(st, "freed"):
            self.report(st, ins, "calls something while the thread still has the state that was freed" if self.get(st, "cur") != C(0) else "goes on after the state was freed")
        if c.startswith("operator delete"):
            if args[0] != CUR:
                self.report(st, ins, "frees something else")
            if not self.get(st, "cleaned"):
                self.report(st, ins, "frees a state that was not cleaned up")
            self.put(st, freed=self.get(st, "freed") + 1)
        elif c in (TSD + "::~ThreadSpecificData", TSD + "::cleanup_routine"):
            if args[0] != CUR:
                self.report(st, ins, "cleans up something else")
            if self.get(st, "cur") != CUR:
                self.report(st, ins, "takes the state from the thread before it was cleaned up")
            self.put(st, cleaned=True)
        return ("pure",)

    def store(self, fl, st, ins, a, v, f):
        g = self.glob(a)
        if g == "current_tsd":
            if v != C(0):
                self.report(st, ins, "gives the thread another state")
            self.put(st, cur=v)
        elif g:
            self.report(st, ins, "changes the state of the main thread")

    def ret(self, fl, st, ins, v):
        self.n += 1
        g = dict(st.p)
        same = fl.decide(st, fl.mk_icmp("eq", CUR, MAIN, 64))
        if g["freed"] or g["cleaned"]:
            if same is not False:
                self.report(st, ins, "may release the state of the main thread")
            if self.null(fl, st, CUR) is not False:
                self.report(st, ins, "releases a state that the thread may not have")
            if g["freed"] != 1:
                self.report(st, ins, "does not free the state once")
            if g["cur"] != C(0):
                self.report(st, ins, "leaves the thread with a state that was freed")
        else:
            if same is not True and self.null(fl, st, CUR) is not True:
                self.report(st, ins, "does not release the state of a worker thread")
            if g["cur"] != CUR:
                self.report(st, ins, "takes the state from the thread without releasing it")


class Destructor(Base):
    def start(self, fl, st):
        fl.wd[("F", "init")] = 8
        self.put(st, n=0, cur=CUR, main=MAIN)

    def load(self, fl, st, ins, a, f):
        if f == TSD + "::initialized_":
            return ("val", ("F", "init"))

    def call(self, fl, st, ins, args):
        if (ins.callee or "") == TSD + "::cleanup_routine":
            self.put(st, n=self.get(st, "n") + 1)
        return ("pure",)

    def ret(self, fl, st, ins, v):
        self.n += 1
        q = fl.possible(st, ("F", "init"), 8)
        if self.get(st, "n") != 1 and q != ((0, 0),):
            self.report(st, ins, "does not clean up a state that was initialized")


class Cleanup(Base):
    unroll = 20
    merge = True

    def start(self, fl, st):
        fl.wd[("F", "busy")] = 8
        self.seen = getattr(self, "seen", set())
        self.put(st, busy=False, k=None, off=False, gone=False, dtor=0, freed=0, done=0)

    def index(self, fl, a, base, size):
        if a == ("+", ("a", 0), base) or a[0] == "+" and a[1] == ("a", 0) and isinstance(a[2], int):
            d = a[2] - base
            if d >= 0 and d % size == 0 and d // size < self.max:
                return d // size

    def finish(self, fl, st, ins):
        g = dict(st.p)
        if g["k"] is None:
            return
        t = ("P", g["k"])
        null = self.null(fl, st, t)
        if null is True:
            if g["freed"] or g["dtor"]:
                self.report(st, ins, "frees a debug object's data that does not exist")
        elif g["dtor"] != 1 or g["freed"] != 1:
            self.report(st, ins, "does not free the data of a debug object once")
        self.put(st, k=None, off=False, gone=False, dtor=0, freed=0, done=g["done"] | 1 << g["k"])

    def load(self, fl, st, ins, a, f):
        if f == TSD + "::cleaning_up_":
            return ("val", C(1) if self.get(st, "busy") else ("F", "busy"))
        k = self.index(fl, a, self.objs, 8) if (f or "").startswith(TSD + "::debug_object_array") else None
        if k is not None:
            g = dict(st.p)
            if g["k"] != k:
                self.finish(fl, st, ins)
                if self.get(st, "done") >> k & 1:
                    return ("val", C(0))        # released already
                self.put(st, k=k)
                self.seen.add(k)
            elif g["gone"]:
                return ("val", C(0))
            t = ("P", k)
            fl.wd[t] = 64
            return ("val", t)

    def store(self, fl, st, ins, a, v, f):
        if f == TSD + "::cleaning_up_":
            self.put(st, busy=v == C(1))
            return
        if (f or "").startswith(TSD + "::debug_object_array"):
            k = self.index(fl, a, self.objs, 8)
            if k is None or k != self.get(st, "k") or v != C(0):
                self.report(st, ins, "changes another debug object")
            self.put(st, gone=True)
        elif (f or "").startswith(TSD + "::debug_object_off_array"):
            k = self.index(fl, a, self.offs, 4)
            if k is None or k != self.get(st, "k"):
                self.report(st, ins, "turns another debug object off")
            elif v[0] != "c" or v[1] < 0:
                self.report(st, ins, "turns a debug object on")
            else:
                self.put(st, off=True)

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.startswith("llvm."):
            return ("pure",)
        g = dict(st.p)
        if not g["busy"]:
            self.report(st, ins, "may be re-entered before it is marked as being busy")
        free = c.startswith("operator delete")
        if free or c.endswith("::~DebugObject_ThreadSpecificData"):
            if args[0] != ("P", g["k"]):
                self.report(st, ins, "frees something else")
            if not g["off"]:
                self.report(st, ins, "frees the data of a debug object that is not turned off")
            if not g["gone"]:
                self.report(st, ins, "frees the data of a debug object that is still in use")
            if free and not g["dtor"]:
                self.report(st, ins, "frees the data of a debug object without destroying it")
            self.put(st, **{"freed" if free else "dtor": min(2, g["freed" if free else "dtor"] + 1)})
        return ("pure",)

    def ret(self, fl, st, ins, v):
        self.n += 1
        g = dict(st.p)
        if not g["busy"]:
            q = fl.possible(st, ("F", "busy"), 8)
            if any(a <= 0 <= b for a, b in q):
                self.report(st, ins, "does nothing although it is not busy")
            if g["k"] is not None:
                self.report(st, ins, "is not marked as being busy")
            return
        self.finish(fl, st, ins)
        if self.get(st, "done") != (1 << self.max) - 1:
            self.report(st, ins, "does not free the data of every debug object")


def escapes(ctx, prog):
    seen = set()
    for fn in sorted(prog.fns.values(), key=lambda f: f.dem):
        if not fn.blocks or fn.dem.startswith("std::"):
            continue
        m = re.search(r"\((.*)\)[^()]*$", fn.dem)
        mine = set()
        if m:
            ps, d, cur = [], 0, ""
            for ch in m.group(1):
                d += ch in "<(" 
                d -= ch in ">)"
                if ch == "," and not d:
                    ps.append(cur)
                    cur = ""
                else:
                    cur += ch
            ps.append(cur)
            off = len(fn.args) - len(ps)
            for k, p in enumerate(ps):
                if re.search(r"(^|[ :])ThreadSpecificData( const)?[&*]", p) and k + off >= 0:
                    mine.add(k + off)
        if re.match(re.escape(TSD) + r"::(?!instance|S_create)", fn.dem):
            mine.add(0)
        ids = set(mine)
        for b in fn.order:
            for i in fn.blocks[b]:
                if i.is_call() and i.callee == TSD + "::instance":
                    ids.add(i.id)
        if not ids:
            continue
        ctx.count("functions with a thread's state")
        for b in fn.order:
            for i in fn.blocks[b]:
                if i.op == "store" and isinstance(i.ops[0], int) and i.ops[0] in ids:
                    a = fn.path(i.ops[1])
                    if a.startswith("%"):
                        continue
                    if fn.dem.startswith(TSD + "::") and a.endswith(("::current_tsd", "::main_thread_tsd")):
                        continue
                    f = a.rsplit(".", 1)[-1]
                    if f not in seen:
                        seen.add(f)
                        ctx.violation("escape|" + f, "%s keeps the address of a thread's state in %s, which outlives it" % (fn.base, a), i.where(), ())
    return seen


def run(ctx):
    prog = inl(dump=[r"ThreadSpecificData::(instance|cleanup_routine)$", r"TSD_cleanup_guard::~", "^" + re.escape(TSD) + "::~ThreadSpecificData$"],
               noinline=[r"DebugObject_ThreadSpecificData::", r"ThreadSpecificData::(instance|cleanup_routine|~ThreadSpecificData)$", "debug_tsd_init$"])
    def one(rx):
        fs = [f for f in prog.fns.values() if re.search(rx, f.base)]
        if len(fs) != 1:
            raise Broken("anchor vanished: " + rx)
        ctx.analysed(fs[0])
        return fs[0]

    for rx, cls, name in ((r"[^_]ThreadSpecificData::instance$", Instance, "instance()"), (r"TSD_cleanup_guard::~TSD_cleanup_guard$", Guard, "the guard that runs when a thread ends"),
                          (r"[^_]ThreadSpecificData::~ThreadSpecificData$", Destructor, "the destructor of a thread's state"), (r"[^_]ThreadSpecificData::cleanup_routine$", Cleanup, "cleanup_routine()")):
        r = cls(ctx, one(rx))
        r.tls, r.wrappers = prog.tls if hasattr(prog, "tls") else (), ()
        if cls is Cleanup:
            r.offs, r.objs = prog.offset(TSD, "debug_object_off_array"), prog.offset(TSD, "debug_object_array")
            r.max = (r.objs - r.offs) // 4 if prog.offset(TSD, "off_cnt_array") < r.offs else (prog.offset(TSD, "off_cnt_array") - r.objs) // 8
        analyse(r.fn, r, 100000)
        ctx.count("paths", r.n)
        if cls is Cleanup:
            ctx.count("debug objects", len(r.seen))
        if not r.n:
            raise Broken("no path through " + name)
        for m, (w, p) in r.bad.items():
            ctx.violation(cls.__name__ + "|" + m, "%s %s" % (name, m), w, p)
        if not r.bad:
            ctx.ok("%s: %d paths" % (name, r.n))
    if not escapes(ctx, raw()):
        ctx.ok("no address of a thread's state is kept elsewhere")
