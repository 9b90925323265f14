"""What init_thread() turns on, under every policy.

init_thread() is followed on every path with the policy unknown; what it runs for every channel is analysed separately: the channel is
turned on, once, exactly when it is not on in this thread and the source (the saved states of the configuration file, or the
channel in the main thread) says on.  Each policy visits the channels with its own source and with no other; the debug object is
turned on once, or not at all for the policy that says so or when it is off in the main thread.  Nothing of the main
thread's data is written.  Output is written, and the function left, only when the stream is known to have a lock or was given one.
The saved states are those after reading the configuration file; a thread's data for an existing debug object starts off.
What is looked up in the saved states is what was saved, and off for a label that was not.  init() turns debug output off as often
as on before it sets up the main thread.  The margin of a named thread is sixteen characters for every length of the name, an
unnamed thread gets one unless it is the first, and only the first is the first."""
from core import *
from flow import Rule, analyse, C, width

FLOORS = {"paths": 10, "visitors": 2}
TECHNIQUE = "path-sensitive analysis of init_thread() and of what it runs for every channel, per policy"
NOTE = "the races between several threads calling init_thread() at the same time are not covered"
IF = "libcwd::init_functions::"
STR = re.compile(r"^std::__cxx11::basic_string<char")
MAIN = ("g", "_ZN6libcwd9_private_15main_thread_tsdE")


class Base(Rule):
    max_states = 4000
    merge = False
    unroll = 1

    def __init__(self, ctx, prog, fn):
        self.ctx, self.prog, self.fn = ctx, prog, fn
        self.bad, self.n = {}, 0

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), st.path()))

    def keep(self, fl, t):
        return isinstance(t, tuple) and (t[0] in ("a", "F") or len(t) > 1 and any(self.keep(fl, x) for x in t[1:]))

    def bool(self, fl, st, name):
        t = ("F", name)
        if t not in fl.wd:
            return None
        q = fl.possible(st, t, 1)
        return False if q == ((0, 0),) else True if q == ((1, 1),) else None

    def term(self, fl, name, w=1):
        t = ("F", name)
        fl.wd[t] = w
        return ("val", t)

    def load(self, fl, st, ins, a, f):
        if a == MAIN:
            fl.wd[("F", "main")] = 64
            return ("val", ("F", "main"))

    def store(self, fl, st, ins, a, v, f):
        if fl.root(a) == ("F", "main") or a == MAIN:
            self.report(st, ins, "changes the main thread's data")
        self.stored(fl, st, ins, a, v, f or "")

    def stored(self, fl, st, ins, a, v, f):
        pass


class Visitor(Base):
    """what is done for one channel: p = (source, times turned on)"""
    def start(self, fl, st):
        st.p = ("", 0)
        self.source = set()

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.endswith("Channel::is_on") and fl.root(args[0]) == ("a", self.chan):
            if len(args) > 1 and args[1] == ("F", "main"):
                st.p = ("main",) + st.p[1:]
                self.source.add("main")
                return self.term(fl, "source")
            return self.term(fl, "own")
        if c.endswith("is_on_in_rcfile") and args and fl.root(args[-1]) == ("a", self.chan):
            st.p = ("rcfile",) + st.p[1:]
            self.source.add("rcfile")
            return self.term(fl, "source")
        if c.endswith(("Channel::on", "Channel::force_on")):
            if fl.root(args[0]) != ("a", self.chan):
                self.report(st, ins, "turns on another channel")
            st.p = (st.p[0], min(2, st.p[1] + 1))
        if c.endswith("Channel::off"):
            self.report(st, ins, "turns a channel off")
        return ("pure",)

    def ret(self, fl, st, ins, v):
        self.n += 1
        own, src = self.bool(fl, st, "own"), self.bool(fl, st, "source")
        if st.p[1] > 1:
            self.report(st, ins, "turns a channel on more than once")
        elif st.p[1]:
            if own is not False:
                self.report(st, ins, "turns on a channel that may be on")
            if src is not True:
                self.report(st, ins, "turns on a channel that its source does not name")
        elif not (own is True or src is False):
            self.report(st, ins, "does not turn on a channel that its source may name")


class Thread(Base):
    """p = (sources visited, debug object on, lock installed)"""
    def start(self, fl, st):
        st.p = ((), 0, False, 0, None)
        fl.wd[("a", 1)] = 32
        if not fl.rule.default:
            fl.assume(st, fl.mk_icmp("ne", ("a", 1), C(self.E["default"]), 32), True)

    def load(self, fl, st, ins, a, f):
        if a == self.first and a not in st.mem:
            fl.wd[("F", "first")] = 1
            return ("val", ("zext", 8, ("F", "first")))
        if a == ("g", "_ZN6libcwd14init_functions19default_thread_initE"):
            return self.term(fl, "policy", 32)
        return Base.load(self, fl, st, ins, a, f)

    def stored(self, fl, st, ins, a, v, f):
        if f.endswith("OstreamState::mutex_") or "mutex_" in f and fl.root(a) == ("g", "_ZN6libcwd8libcw_doE"):
            q = fl.possible(st, v, 64)
            st.p = st.p[:2] + (not any(x <= 0 <= y for x, y in q) or v[0] in ("i", "g"),) + st.p[3:]

    def locked(self, fl, st):
        return st.p[2] or self.bool(fl, st, "mutex") is True

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.startswith("llvm."):
            return ("pure",)
        if ins.get("callee") in self.visitors:
            k = self.visitors[ins.get("callee")]
            if k not in st.p[0]:
                st.p = (st.p[0] + (k,),) + st.p[1:]
                # what the channels are visited for depends on the policy only
                if self.policy(fl, st) == "off":
                    self.report(st, ins, "turns on channels although the thread's output stays off")
                elif self.policy(fl, st) not in (k, None):
                    self.report(st, ins, "turns on the channels of the other policy")
                elif self.policy(fl, st) is None:
                    self.report(st, ins, "turns on channels without knowing the policy")
            return None
        if re.search(r"__normal_iterator<libcwd::Channel", c) and "operator==" in c:
            k = self.policy(fl, st)
            self.walks.add(k)
            return None
        if c.endswith("DebugObject::is_on") and len(args) > 1 and args[1] == ("F", "main"):
            return self.term(fl, "mainobj")
        if c.endswith("DebugObject::on"):
            st.p = (st.p[0], min(2, st.p[1] + 1)) + st.p[2:]
            return ("pure",)
        if c.endswith("DebugObject::off"):
            self.report(st, ins, "turns debug output off")
        if c.endswith("has_mutex"):
            return self.term(fl, "mutex")
        if c.endswith("DebugObject::set_ostream") and len(args) > 2:
            st.p = st.p[:2] + (True,) + st.p[3:]
        if c.endswith("DebugObject_ThreadSpecificData::start") and not self.locked(fl, st):
            self.report(st, ins, "writes a line while the stream may have no lock")
        if STR.match(c):
            return self.string(fl, st, ins, "basic_string" if ">::basic_string" in c else c.rsplit("::", 1)[-1], args)
        if c.endswith("DebugString::assign"):
            st.p = st.p[:3] + (min(3, st.p[3] + 1), st.p[4])
        return None

    def keep_mem(self, fl, a, f):
        return a == self.first

    def string(self, fl, st, ins, n, args):
        """the name of the thread, and what fills it up"""
        if n == "empty" and args[0] == ("a", 0):
            return self.term(fl, "noname")
        if n in ("length", "size") and args[0] == ("a", 0):
            fl.assume(st, fl.mk_icmp("ult", ("F", "len"), C(1 << 20), 64), True) if ("F", "len") in fl.wd else None
            return self.term(fl, "len", 64)
        if n == "substr" and len(args) == 4 and args[1] == ("a", 0):
            if args[2] != C(0):
                self.report(st, ins, "does not start the margin with the name")
            st.p = st.p[:4] + (args[3],)
        if n.startswith("basic_string") and len(args) > 2 and args[2] == C(32) and st.p[4]:
            for l in range(1, 60):
                k = fl.evalterm(st.p[4], {("F", "len"): l})
                m = fl.evalterm(args[1], {("F", "len"): l})
                if k is None or m is None or not fl.consistent(st, {("F", "len"): l}):
                    continue
                self.ctx.count("lengths of names")
                if m >= 1 << 63 or min(k, l) + m != 16:
                    self.report(st, ins, "makes a margin that is not sixteen characters wide for a name of %d" % l)
                    break
        return None

    def policy(self, fl, st):
        for t in (("a", 1), ("F", "policy")):
            if t in fl.wd:
                q = fl.possible(st, t, 32)
                if q and q[0][0] == q[-1][1]:
                    k = {v: k for k, v in self.E.items()}.get(q[0][0])
                    if k != "default":
                        return k

    def ret(self, fl, st, ins, v):
        self.n += 1
        noname, was = self.bool(fl, st, "noname"), self.bool(fl, st, "first")
        if self.first and noname is not None:
            n = st.p[3]
            if noname is False and n != 1:
                self.report(st, ins, "does not set the margin of a named thread once")
            if noname and was is not None and n != (0 if was else 1):
                self.report(st, ins, "gives the first thread a number, or another unnamed thread none")
            now = st.mem.get(self.first)
            if (now is None and was is not False) or (now is not None and fl.possible(st, now, 8) != ((0, 0),)):
                self.report(st, ins, "does not remember that the first thread was set up")
        if not self.locked(fl, st):
            self.report(st, ins, "can leave the stream without a lock")
        k = self.policy(fl, st)
        self.seen.add(k)
        on = st.p[1]
        m = self.bool(fl, st, "mainobj")
        if on > 1:
            self.report(st, ins, "turns debug output on more than once")
        if k == "rcfile" and not on or k == "main" and m is True and not on:
            self.report(st, ins, "leaves debug output off")
        if on and (k == "off" or k == "main" and m is not True):
            self.report(st, ins, "turns debug output on although it should stay off")
        if on and k is None and not self.excluded(fl, st, "off"):
            self.report(st, ins, "turns debug output on without knowing the policy")

    def excluded(self, fl, st, k):
        t = ("a", 1)
        q = fl.possible(st, t, 32)
        if any(a <= self.E["default"] <= b for a, b in q):
            t = ("F", "policy")
            if t not in fl.wd:
                return False
            q = fl.possible(st, t, 32)
        return not any(a <= self.E[k] <= b for a, b in q)


class Order(Rule):
    max_states = 4000

    def __init__(self):
        self.bad = {}

    def start(self, fl, st):
        st.p = ((), 0)

    def call(self, fl, st, ins, args):
        c = (ins.callee or "").rsplit("::", 1)[-1]
        if (ins.callee or "").endswith(("libcwd::DebugObject::on", "libcwd::DebugObject::off")):
            st.p = (st.p[0], max(-3, min(3, st.p[1] + (1 if c == "on" else -1))))
            return None
        if c in ("read", "save_dc_states", "init_thread"):
            st.p = (st.p[0] + (c,), st.p[1]) if st.p[0].count(c) < 3 else st.p
            if c == "init_thread" and st.p[1]:
                self.bad["does not turn debug output off as often as on before it sets up the main thread"] = (ins.where(), st.path())
            return None

    def ret(self, fl, st, ins, v):
        if st.p[0] != ("read", "save_dc_states", "init_thread"):
            self.bad["does not read the configuration, save the states and set up the main thread, in that order"] = (ins.where(), st.path())


class Save(Base):
    def start(self, fl, st):
        st.p = (0,)

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.endswith("Channel::is_on") and fl.root(args[0]) == ("a", self.chan):
            return self.term(fl, "own")
        if c.endswith("set_state"):
            st.p = (min(2, st.p[0] + 1),)
            if fl.root(args[0]) != ("a", self.chan) or args[1] not in (("F", "own"), ("zext", 8, ("F", "own"))) and self.bool(fl, st, "own") is None:
                self.report(st, ins, "saves something else than the state of the channel")
        return ("pure",)

    def ret(self, fl, st, ins, v):
        if st.p[0] != 1:
            self.report(st, ins, "does not save the state exactly once")


class Saved(Base):
    """the saved states: p = (insertions, the state that was inserted)"""
    N0, END = ("N",), ("END",)

    def start(self, fl, st):
        st.p = (0, False)
        fl.wd[self.N0] = fl.wd[self.END] = 64
        fl.wd[("SAVED",)] = 8
        self.asked = False

    def keep(self, fl, t):
        return True

    def keep_mem(self, fl, a, f):
        return True

    def store(self, fl, st, ins, a, v, f):
        return None

    def load(self, fl, st, ins, a, f):
        r = fl.root(a)
        k = a[2] if a[0] == "+" else 0
        if r == self.N0 or r == ("VAL",):
            if fl.decide(st, fl.mk_icmp("ne", self.N0, self.END, 64)) is not True:
                self.report(st, ins, "uses a saved state without checking that there is one")
            if k == (64 if r == self.N0 else 32):
                return ("val", ("SAVED",))

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.endswith("_M_valptr"):
            return ("val", ("VAL",)) if fl.root(args[0]) == self.N0 else None
        m = re.search(r"^std::(?:map|_Rb_tree|unordered_map)<.*>::(\w+)(?:\[abi:\w+\])?(?:<.*>)?$", c)
        if m and not m.group(1).startswith("_"):
            n = m.group(1)
            if n == "find":
                st.p = (1, st.p[1])
                return ("val", self.N0)
            if n in ("end", "cend"):
                return ("val", self.END)
            if n in ("insert", "emplace"):
                v = fl.mem(st, fl.mk_add(args[1], 32)) if hasattr(fl, "mem") else st.mem.get(fl.mk_add(args[1], 32))
                if n == "insert" and len(args) == 2 and v is not None:
                    st.p = (min(2, st.p[0] + 1), True)
                    if [fl.evalterm(v, {("a", 1): x}) for x in (0, 1)] != [0, 1]:
                        self.report(st, ins, "saves something else than it was told")
                    return None
            st.p = (3, st.p[1])
        return None

    def ret(self, fl, st, ins, v):
        self.n += 1
        if st.p[0] == 3:
            return
        if st.p[0] != 1:
            self.report(st, ins, "does not look at the saved states exactly once")
        elif not st.p[1]:
            self.ctx.count("saved states looked up")
            there = fl.decide(st, fl.mk_icmp("ne", self.N0, self.END, 64))
            if there is not True:
                if not fl.is_const(st, v, 0):
                    self.report(st, ins, "says on for a label that may not be saved")
            elif [fl.evalterm(v, {("SAVED",): x}) for x in (0, 1)] != [0, 1] and [fl.evalterm(v, {("SAVED",): x, ("trunc", 1, ("SAVED",)): x}) for x in (0, 1)] != [0, 1]:
                self.report(st, ins, "says something else than what was saved")


class Tsd(Base):
    """a new thread's data: p = (objects made, initialized, off stored)"""
    def start(self, fl, st):
        st.p = ((), (), ())

    def stored(self, fl, st, ins, a, v, f):
        if "debug_object_array" in f:
            st.p = (st.p[0] + (v,),) + st.p[1:]
            if len(st.p[0]) > 1:
                self.report(st, ins, "makes the data of an object twice")
        elif "debug_object_off_array" in f:
            if v[0] != "c" or v[1] < 0 or v[1] >= 1 << 31:
                self.report(st, ins, "starts with debug output on")
            st.p = st.p[:2] + (st.p[2] + (1,),)

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.endswith("DebugObject_ThreadSpecificData::init"):
            st.p = (st.p[0], st.p[1] + (args[0],), st.p[2])
            if args[0] not in st.p[0]:
                self.report(st, ins, "initializes something else than the new data")
        if c.endswith("fatal_finish") or c.endswith("assert_fail"):
            st.dead = True
        return None

    def ret(self, fl, st, ins, v):
        self.n += 1
        if [len(x) for x in st.p] != [1, 1, 1]:
            self.report(st, ins, "does not make, initialize and switch off the data exactly once")


def run(ctx):
    prog = inl(dump=[r"^libcwd::init_functions::", r"debug_tsd_init"],
               noinline=[r"^libcwd::(DebugObject|Channel)::(on|off|is_on|has_mutex|get_ostream|force_on)$", "DebugObject_ThreadSpecificData::", "::instance$",
                         "is_on_in_rcfile", "save_dc_states", "set_state", "init_functions::init_thread$", "DebugString", "RcFile::", "main_reached"],
               inline=[r"::\$_\d+::operator\(\)"], witnesses=["enums.cc"])
    first = [("g", n) for n in prog.globals if n.endswith("E12first_thread")]
    Thread.first = first[0] if len(first) == 1 else None
    E = {}
    for k, n in (("default", "vp_default"), ("rcfile", "vp_from_rcfile"), ("main", "vp_copy_from_main"), ("off", "vp_debug_off")):
        E[k] = prog.globals[n]["init"]["c"]
    rp = raw()

    def body(name, seen=()):
        """the lambda that a callback for for_each ends in"""
        f = rp.fns.get(name)
        if f is None or name in seen or len(seen) > 6:
            return None
        if re.search(r"\$_\d+::operator\(\)", f.dem) and "Debug" not in f.dem.split("operator()")[-1].split("(")[0]:
            return f
        for i in f.calls():
            r = body(i.get("callee"), seen + (name,))
            if r is not None:
                return r

    def finish(name, r):
        ctx.count("paths", r.n if hasattr(r, "n") else 0)
        for m, (w, p) in r.bad.items():
            ctx.violation(name + "|" + m, "%s %s" % (name, m), w, p)
        if not r.bad:
            ctx.ok(name)

    fn = prog.one(IF + "init_thread")
    ctx.analysed(fn)
    visitors = {}
    for i in fn.calls():
        if "DebugChannels::for_each<" in (i.callee or ""):
            b = body(i.get("callee"))
            if b is None or b.name not in prog.fns:
                raise Broken("cannot find what is run for every channel: " + i.callee[:80])
            g = prog.fns[b.name]
            ctx.analysed(g)
            r = Visitor(ctx, prog, g)
            r.chan = len(g.args) - 1
            r.source = set()
            analyse(g, r, 20000)
            ctx.count("visitors")
            if len(r.source) != 1:
                ctx.violation("visitor|" + str(sorted(r.source)), "what init_thread() runs for every channel has not exactly one source", i.where(), ())
            visitors[i.get("callee")] = next(iter(r.source), "none")
            finish("init_thread: channels as in %s" % next(iter(r.source), "nothing"), r)
    for d in (False, True):
        r = Thread(ctx, prog, fn)
        r.E, r.visitors, r.default, r.walks, r.seen = E, visitors, d, set(), set()
        analyse(fn, r, 200000)
        for k in ("rcfile", "main"):
            if k not in r.walks:
                ctx.violation("walk|" + k, "init_thread() does not visit the channels for the policy %s" % k, fn.loc(), ())
        finish("init_thread%s" % (" with the default policy" if d else ""), r)
    f = prog.one(IF + "init")
    ctx.analysed(f)
    r = Order()
    analyse(f, r, 100000)
    finish("init", r)
    from checks.c32 import NOIN, IN
    p2 = inl(dump=[r"is_on_in_rcfile$", r"::set_state$"], noinline=NOIN[:3] + ["_M_valptr$", "DebugObject", "Channel"], inline=[IN[0]] + IN[1:])
    for nm in ("is_on_in_rcfile", "set_state"):
        l = [f for f in p2.fns.values() if f.base.endswith("::" + nm)]
        if len(l) == 1:
            ctx.analysed(l[0])
            r = Saved(ctx, p2, l[0])
            analyse(l[0], r, 50000)
            finish(nm, r)
    n = 0
    for f in prog.fns.values():
        if "save_dc_states" in f.dem and re.search(r"\$_\d+::operator\(\)\(libcwd::Channel", f.dem):
            n += 1
            ctx.analysed(f)
            r = Save(ctx, prog, f)
            r.chan = len(f.args) - 1
            analyse(f, r, 20000)
            finish("save_dc_states", r)
        if "debug_tsd_init" in f.dem and re.search(r"\$_\d+::operator\(\)\(libcwd::DebugObject", f.dem):
            n += 1
            ctx.analysed(f)
            r = Tsd(ctx, prog, f)
            analyse(f, r, 20000)
            finish("debug_tsd_init", r)
    if n < 2:
        raise Broken("anchor vanished: what is run for every channel or object")
