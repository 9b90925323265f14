"""Event order on every path of the initialization functions.

For the global initialization, a debug object, the three kinds of channels, the registration of both and the lookup's
own initialization, the stores to the guards, the calls that matter and the values stored are recorded in order on every path,
and what the path knows about the guards.  When the guard says that it was done (or is being done) nothing may happen; otherwise
everything has to happen exactly once, the guard first; nothing that can report a fatal error (over the call graph) is called before both
fatal channels are usable; the off count of a new object is not negative and is set before it is called initialized; a channel is
switched on only when its whole label equals WARNING."""
from core import *
from flow import Rule, analyse, C, width
from registry import closure
from demangle import strings

FLOORS = {"functions": 9, "paths": 30}
TECHNIQUE = "event order on all paths of the initialization functions, with the call graph for what can fail"
NOTE = "threads: objects and channels are initialized before main starts threads (documented)"
NS = "libcwd::"
DC = "_ZN6libcwd8channels2dc"


class Events(Rule):
    """p = (events, ((field, version or constant), ...))"""
    max_states = 4000
    merge = False
    unroll = 1

    def __init__(self, prog, ctx, fn, fields, event, clobber, check):
        self.prog, self.ctx, self.fn = prog, ctx, fn
        self.fields, self.event, self.clobber, self.check = fields, event, clobber, check
        self.bad, self.n = {}, 0

    def start(self, fl, st):
        st.p = ((), tuple((k, 0, None) for k in self.fields))

    def keep(self, fl, t):
        return isinstance(t, tuple) and (t[0] in ("a", "F") or len(t) > 1 and any(isinstance(x, tuple) and x[0] in ("a", "F") for x in t[1:]))

    def add(self, st, e):
        if st.p[0].count(e) < 3:
            st.p = (st.p[0] + (e,),) + st.p[1:]

    def field(self, fl, a, f):
        for k, (cls, root) in self.fields.items():
            if (f or "").endswith(cls) and (root is None or fl.root(a) == root) or cls == "@" and a == root:
                return k

    def load(self, fl, st, ins, a, f):
        k = self.field(fl, a, f)
        if k is not None:
            for n, ver, c in st.p[1]:
                if n == k:
                    if c is not None:
                        return ("val", C(c))
                    t = ("F", k, ver)
                    fl.wd[t] = width(ins.get("t"))
                    return ("val", t)

    def store(self, fl, st, ins, a, v, f):
        k = self.field(fl, a, f)
        if k is not None:
            c = v[1] if v[0] == "c" else None
            st.p = (st.p[0], tuple((n, ver, c) if n == k and c is not None else (n, ver + 1, None) if n == k else (n, ver, o) for n, ver, o in st.p[1]))
            self.add(st, ("set", k, c if c is not None else v))
            return
        if fl.root(a)[0] != "al":
            e = self.event(self, fl, st, ins, "store", f or "", a, v)
            if e:
                self.add(st, e)

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.startswith("llvm."):
            return ("pure",)
        if c.endswith("DebugObject_ThreadSpecificData::fatal_finish"):
            self.end_of(fl, st, ins, "fatal")
            st.dead = True
            return ("pure",)
        e = self.event(self, fl, st, ins, "call", c, args, None)
        r = None
        if isinstance(e, tuple) and e and e[0] == "val":
            return e
        if e:
            self.add(st, e)
            if e[0] in self.clobber:
                st.p = (st.p[0], tuple((n, min(ver + 1, 3), None) for n, ver, o in st.p[1]))
        return r

    def known(self, fl, st, k, ver=0):
        t = ("F", k, ver)
        if t not in fl.wd:
            return "?"
        q = fl.possible(st, t, fl.wd[t])
        return "0" if q == ((0, 0),) else "1" if all(not a <= 0 <= b for a, b in q) else "?"

    def end_of(self, fl, st, ins, how):
        self.n += 1
        m = self.check(self, fl, st, st.p[0], how)
        if m:
            self.bad.setdefault(m, (ins.where(), st.path()))

    def ret(self, fl, st, ins, v):
        q = fl.possible(st, v, 1) if v is not None and ins.ops else ()
        self.end_of(fl, st, ins, "false" if q == ((0, 0),) else "true" if q == ((1, 1),) else "?" if q else "done")


def before(ev, a, b):
    """first a comes before first b (or there is no b)"""
    return b not in ev or a in ev and ev.index(a) < ev.index(b)


def names(ev):
    return tuple(e[0] if e[0] != "set" else "set " + e[1] for e in ev)


def run(ctx):
    rp = raw()
    reporters = closure(rp, {f.name for f in rp.fns.values() if re.search(r"DebugObject_ThreadSpecificData::(start|fatal_finish)$", f.base)}, "^$")
    if len(reporters) < 5:
        raise Broken("no function that reports found")
    noinl = [r"^libcwd::DebugObject::(NS_init|on|off|set_ostream|force_on|restore)$", r"^libcwd::ST_initialize_globals$", r"NS_initialize$",
             r"initialize_(fatal_)?channel$", r"^libcwd::Channel::initialize$", "add_if_missing$", "DebugObject_ThreadSpecificData::", r"::instance$",
             r"register_initial_object_files$", r"process_environment", r"ensure_initialization$"]
    fns = [r"DebugObject::NS_init", r"ST_initialize_globals", r"(Channel|FatalChannel|ContinuedChannel)::NS_initialize", r"_private_::DebugChannels::initialize_(fatal_)?channel",
           r"Channel::initialize", r"_private_::DebugObjects::add_if_missing", r"dwarf::ensure_initialization", r"DebugObject::DebugObject", "initialize",
           r"(DebugObject|Channel)::force_on",
           "Channel::Channel", "FatalChannel::FatalChannel", "ContinuedChannel::ContinuedChannel"]
    prog = inl(dump=["^" + NS + f + "$" for f in fns], noinline=noinl)

    def go(name, fields, event, check, clobber=()):
        fn = prog.one(NS + name)
        ctx.analysed(fn)
        r = Events(prog, ctx, fn, fields, event, clobber, check)
        analyse(fn, r, 100000)
        ctx.count("functions")
        ctx.count("paths", r.n)
        if not r.n:
            raise Broken("no path through " + name)
        for m, (w, p) in r.bad.items():
            ctx.violation(name + "|" + m, "%s %s" % (NS + name, m), w, p)
        if not r.bad:
            ctx.ok("%s: %d paths" % (name, r.n))

    # --- the whole library
    flags = {}
    for f in rp.fns.values():
        if f.base == NS + "ST_initialize_globals":
            for i in f.instrs():
                if i.op == "store" and isinstance(i.ops[1], dict) and i.ops[1].get("g"):
                    flags[i.ops[1]["g"]] = f
    if not flags:
        raise Broken("anchor vanished: guard of ST_initialize_globals")
    for f in rp.fns.values():
        for i in f.instrs():
            if i.op == "store" and isinstance(i.ops[1], dict) and i.ops[1].get("g") in flags and f.base != NS + "ST_initialize_globals":
                ctx.violation("guard|" + f.base, "%s changes the guard of the global initialization" % f.dem, i.where())
    guards = {"guard": ("@", ("g", g)) for g in sorted(flags)[:1]}

    def ev_globals(r, fl, st, ins, kind, c, args, v):
        if kind == "store":
            return None
        o = args[0] if args else None
        if c.endswith("FatalChannel::NS_initialize") and o and o[0] == "g":
            k = o[1].replace(DC, "")
            return ("core" if "4core" in k else "fatal" if "5fatal" in k else "channel", args[2][1] if args[2][0] == "c" else None)
        if c.endswith("Channel::NS_initialize") and o and o[0] == "g":
            return ("channel", o[1])
        if c.endswith("DebugObject::NS_init"):
            return ("object", o[1])
        if c.endswith("ensure_initialization"):
            return ("lookup",)
        if ins.get("callee") in reporters:
            return ("reports",)
        return ("call",)

    def globals_(r, fl, st, ev, how):
        n = names(ev)
        k = r.known(fl, st, "guard")
        if k == "1":
            return "does something although it ran before" if ev else None
        if k == "?":
            return "runs without knowing whether it ran before"
        if n[:1] != ("set guard",) or ev[0][2] in (0, None):
            return "does something before it is marked as having run"
        if n.count("set guard") > 1:
            return "marks itself as having run more than once"
        i = [n.index(x) if x in n else len(n) for x in ("core", "fatal")]
        if "reports" in n and n.index("reports") < max(i):
            return "may report a fatal error before the fatal channels are usable"
        for j, x in enumerate(n):
            if x in ("channel", "object", "lookup") and j < max(i):
                return "initializes something that may fail before the fatal channels are usable"
        for x in ("core", "fatal"):
            if how == "done" and n.count(x) != 1 or n.count(x) > 1:
                return "does not make dc::%s usable exactly once" % x
            for e in ev:
                if e[0] == x and not e[1]:
                    return "gives dc::%s no mask" % x
        if how == "done":
            if n.count("object") != 1:
                return "does not initialize libcw_do exactly once"
            if n.count("lookup") != 1:
                return "does not initialize the lookup of source locations exactly once"
            if n.index("lookup") < n.index("object"):
                return "initializes the lookup before libcw_do"
            ch = [e[1] for e in ev if e[0] == "channel"]
            for x in ("5debug", "9continued", "6finish", "8elfutils", "7warning", "6notice", "6system"):
                if sum(1 for c in ch if x in str(c)) != 1:
                    return "does not initialize dc::%s exactly once" % x[1:]
        return None

    go("ST_initialize_globals", guards, ev_globals, globals_)

    # --- who triggers it
    def ev_calls(want):
        def ev(r, fl, st, ins, kind, c, args, v):
            if kind == "call" and c.endswith(want):
                return ("init",)
            return None
        return ev

    def once(r, fl, st, ev, how):
        return None if how == "fatal" or names(ev).count("init") == 1 else "does not trigger the initialization exactly once"
    go("DebugObject::DebugObject", {}, ev_calls("DebugObject::NS_init"), once)
    go("DebugObject::force_on", {}, ev_calls("DebugObject::NS_init"), once)
    go("initialize", {}, ev_calls("ST_initialize_globals"), once)
    go("Channel::force_on", {}, ev_calls("Channel::NS_initialize"), once)
    for c in ("Channel", "FatalChannel", "ContinuedChannel"):
        if any(f.base == NS + "%s::%s" % (c, c) for f in prog.fns.values()):
            go("%s::%s" % (c, c), {}, ev_calls("Channel::NS_initialize"), once)

    # --- a debug object
    off = prog.offset(NS + "_private_::ThreadSpecificData", "debug_object_off_array")

    def ev_object(r, fl, st, ins, kind, c, args, v):
        if kind == "store":
            if "debug_object_off_array" in c:
                return ("off", v[1] if v[0] == "c" else None)
            if "debug_object_array" in c:
                return ("tsd",)
            if c.endswith("DebugObject::index_"):
                return ("index",)
            if args == ("g", "_ZN6libcwd11DebugObject14s_index_count_E"):
                return ("counted",)
            return ("store",)
        if c.endswith("ST_initialize_globals"):
            return ("global",)
        for x in ("add_if_missing", "DebugObject_ThreadSpecificData::init", "set_ostream"):
            if c.endswith(x):
                return (x.split("::")[-1],)
        return ("call",)

    def object_(r, fl, st, ev, how):
        n = names(ev)
        if r.known(fl, st, "being") == "1" and r.known(fl, st, "done") == "1":
            return None             # cannot be
        if r.known(fl, st, "being") == "1":
            return "does something while it is being initialized" if ev else None if how == "false" else "does not report that it is being initialized"
        if r.known(fl, st, "being") == "?":
            return "runs without knowing whether it is being initialized"
        if n[:1] != ("global",) or n.count("global") != 1:
            return "does not trigger the global initialization first"
        done = r.known(fl, st, "done", 1)
        if done == "1":
            return "does something although it is initialized" if len(n) > 1 else None if how == "true" else "does not report that it is initialized"
        if done == "?":
            return "runs without knowing whether it is initialized"
        if len(n) > 1 and ev[1] != ("set", "being", 1):
            return "does something before it is marked as being initialized"
        if how == "fatal":
            return None
        if how != "true":
            return "does not report success"
        for x in ("add_if_missing", "index", "counted", "tsd", "init", "off", "set_ostream", "set done"):
            if n.count(x) != 1:
                return "does %s not exactly once" % x
        for e in ev:
            if e[0] == "off" and (e[1] is None or e[1] < 0 or e[1] >= 1 << 31):
                return "is on by default"
        if ("set", "done", 1) not in ev or any(n.index(x) > n.index("set done") for x in ("add_if_missing", "index", "counted", "tsd", "init", "off", "set_ostream")):
            return "is called initialized before it is"
        if not (n.index("tsd") < n.index("off") and n.index("index") < n.index("tsd")):
            return "uses its index before it has one"
        if ev[-1][:2] not in (("set", "done"), ("set", "being")) or [e for e in ev if e[:2] == ("set", "being")] != [("set", "being", 1), ("set", "being", 0)]:
            return "stays marked as being initialized"
        if ev.index(("set", "being", 0)) < max(n.index(x) for x in ("add_if_missing", "index", "counted", "tsd", "init", "off", "set_ostream")):
            return "is not marked as being initialized the whole time"
        return None
    go("DebugObject::NS_init", {"being": ("DebugObject::being_initialized_", ("a", 0)), "done": ("DebugObject::initialized_", ("a", 0))}, ev_object, object_, ("global",))

    # --- channels
    def ev_chan(want):
        def ev(r, fl, st, ins, kind, c, args, v):
            if kind == "store":
                return ("store",)
            if c.endswith(want):
                return ("init",) + tuple(a for a in args[1:] if a[0] in ("a", "c"))
            return None if c.endswith("::instance") else ("call",)
        return ev

    def chan(args):
        def f(r, fl, st, ev, how):
            k = r.known(fl, st, "done")
            if k == "1":
                return "initializes it again" if ev else None
            if k == "?":
                return "runs without knowing whether it is initialized"
            if how != "fatal" and ev != (("init",) + args,):
                return "does not initialize it exactly once"
        return f
    go("Channel::NS_initialize", {"done": ("Channel::initialized_", ("a", 0))}, ev_chan("::initialize_channel"), chan((("a", 0), ("a", 1), ("a", 2), ("a", 3))))
    go("FatalChannel::NS_initialize", {"done": ("FatalChannel::maskbit_", ("a", 0))}, ev_chan("::initialize_fatal_channel"), chan((("a", 0), ("a", 1), ("a", 2))))

    def cont(r, fl, st, ev, how):
        k = r.known(fl, st, "done")
        if k == "?":
            return "runs without knowing whether it is initialized"
        if k == "1":
            return "initializes it again" if ev else None
        if ev != (("set", "done", ("a", 1)),):
            return "does not initialize it"
    go("ContinuedChannel::NS_initialize", {"done": ("ContinuedChannel::maskbit_", ("a", 0))}, ev_chan("NEVER"), cont)

    def ev_fatal(r, fl, st, ins, kind, c, args, v):
        if kind == "call" and (ins.get("callee") in reporters or c.endswith("DebugObject_ThreadSpecificData::start")):
            return ("reports",)

    def fatal(r, fl, st, ev, how):
        n = names(ev)
        if n.count("set mask") != 1 or ("set", "mask", ("a", 3)) not in ev:
            return "does not give the channel its mask exactly once"
        if "reports" in n and n.index("reports") < n.index("set mask"):
            return "may fail before the fatal channel is usable"
    go("_private_::DebugChannels::initialize_fatal_channel", {"mask": ("FatalChannel::maskbit_", ("a", 1))}, ev_fatal, fatal)

    vis = prog.offset(NS + "_private_::ChannelSets", "visible_")
    hid = prog.offset(NS + "_private_::ChannelSets", "hidden_")

    def warning(g):
        return strings(prog).get(g, "").rstrip("\0") == "WARNING"

    def ev_reg(r, fl, st, ins, kind, c, args, v):
        if kind == "store":
            if "off_cnt_array" in c:
                return ("on" if v[0] == "c" and (v[1] < 0 or v[1] >= 1 << 31) else "off" if v == C(0) else "odd", r.known(fl, st, "cmp"), fl.root(args))
            return None
        if c.endswith("Channel::initialize"):
            return ("init", args[0])
        if c in ("strcmp", "strncmp", "strcasecmp", "memcmp", "std::strcmp") or "compare" in c:
            strs = [a for a in args if a[0] == "g" and warning(a[1])]
            if strs:
                t = ("F", "cmp", 0)
                fl.wd[t] = 32
                whole = c == "strcmp" or c == "strncmp" and args[2][0] == "c" and args[2][1] >= 8
                if whole and ("a", 2) in args:
                    return ("val", t)
                r.add(st, ("part",))
                return ("val", t)
        m = re.search(r"std::(vector|deque|list|set)<.*>::(insert|push_back|emplace\w*|push_front)$", c)
        if m:
            o = args[0]
            d = o[2] if o[0] == "+" and isinstance(o[2], int) else 0
            return ("visible" if d == vis else "hidden" if d == hid else "elsewhere",)
        return None

    def reg(r, fl, st, ev, how):
        n = names(ev)
        if how == "fatal":
            return None
        if n.count("init") != 1 or ("init", ("a", 1)) not in ev:
            return "does not initialize the channel exactly once"
        if n.count("on") + n.count("off") + n.count("odd") != 1:
            return "does not set the default state exactly once"
        for e in ev:
            if e[0] == "on" and e[1] != "0":
                return "turns on a channel by default that is not WARNING"
            if e[0] == "off" and e[1] != "1":
                return "does not turn on WARNING by default"
            if e[0] == "odd":
                return "sets an unexpected default state"
        if "part" in n:
            return "does not compare the whole label with WARNING"
        add = fl.possible(st, ("a", 4), 1)
        want = "hidden" if add == ((0, 0),) else "visible" if all(not a <= 0 <= b for a, b in add) else "?"
        got = [x for x in n if x in ("visible", "hidden", "elsewhere")]
        if got != [want]:
            return "does not register the channel exactly once where it belongs"
        if n.index("init") > min(n.index(x) for x in n if x in ("on", "off", "visible", "hidden")):
            return "uses the channel before it is initialized"
    go("_private_::DebugChannels::initialize_channel", {}, ev_reg, reg)

    def ev_init(r, fl, st, ins, kind, c, args, v):
        if kind == "store":
            if c.endswith("ChannelSets::next_index_"):
                return ("next", v)
            if c.endswith("Channel::index_"):
                return ("index", v)
        return None

    def init(r, fl, st, ev, how):
        if how == "fatal":
            return "initializes the channel and fails" if ev else None
        n = names(ev)
        if n.count("next") != 1 or n.count("index") != 1 or n.count("set done") != 1 or ("set", "done", 1) not in ev:
            return "does not give the channel one new index"
        nx = [e[1] for e in ev if e[0] == "next"][0]
        ix = [e[1] for e in ev if e[0] == "index"][0]
        d = fl.mk_add(nx, -1)
        if ix not in (nx, d) or fl.root(nx) != fl.root(d) or nx == ("c", 0):
            return "gives the channel an index that others have"
        if ix == d:
            return "gives the channel the index of uninitialized channels"
    go("Channel::initialize", {"done": ("Channel::initialized_", ("a", 0))}, ev_init, init)

    # --- registration of objects
    def ev_add(r, fl, st, ins, kind, c, args, v):
        if kind == "store":
            return None
        if "operator==" in c or "operator!=" in c:
            t = ("F", "missing", 0)
            fl.wd[t] = 1
            return ("val", t if "operator==" in c else fl.mk_icmp("eq", t, C(0), 1))
        if re.search(r"::(insert|push_back|emplace\w*)$", c):
            return ("add",)

    def add(r, fl, st, ev, how):
        k = r.known(fl, st, "missing")
        n = names(ev).count("add")
        if k == "?":
            return "does not find out whether the object is registered already"
        if n != (1 if k == "1" else 0):
            return "registers an object %s" % ("again" if n else "not at all")
    go("_private_::DebugObjects::add_if_missing", {}, ev_add, add)

    # --- the lookup
    def ev_look(r, fl, st, ins, kind, c, args, v):
        if kind == "store":
            return ("store",)
        if c.endswith("DebugObject::NS_init"):
            t = ("F", "ok", 0)
            fl.wd[t] = 1
            r.add(st, ("object",))
            return ("val", t)
        if c.endswith("register_initial_object_files"):
            return ("register",)
        return None

    lf = [f for f in rp.fns.values() if f.base == NS + "dwarf::ensure_initialization"]
    ls = {i.ops[1]["g"] for f in lf for i in f.instrs() if i.op == "store" and isinstance(i.ops[1], dict) and i.ops[1].get("g")}
    if not ls:
        raise Broken("anchor vanished: guard of ensure_initialization")

    def look(r, fl, st, ev, how):
        n = names(ev)
        d, b = r.known(fl, st, "done"), r.known(fl, st, "being")
        if d == "1":
            return "does something although it is initialized" if ev else None if how == "true" else "does not report that it is initialized"
        if d == "?":
            return "runs without knowing whether it is initialized"
        if b == "1":
            return "does something while it is being initialized" if ev else None if how == "false" else "does not report that it is being initialized"
        if b == "?":
            return "runs without knowing whether it is being initialized"
        if n[:1] != ("set being",) or ev[0][2] in (0, None):
            return "does something before it is marked as being initialized"
        if n.count("object") != 1:
            return "does not initialize libcw_do first"
        ok = r.known(fl, st, "ok")
        if ok == "0":
            if "register" in n or how != "false":
                return "goes on although libcw_do is being initialized"
            if ev[-1][:2] != ("set", "being") or ev[-1][2] != 0:
                return "stays marked as being initialized although it gave up"
            return None
        if n.count("register") != 1 or how != "true" or n.index("register") < n.index("object"):
            return "does not register the object files exactly once"
    go("dwarf::ensure_initialization", {"done": ("@", ("g", "_ZN6libcwd5dwarf18ObjectFileRegistry27s_object_files_initialized_E")),
                                        "being": ("@", ("g", sorted(ls)[0]))}, ev_look, look)
