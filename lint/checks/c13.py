"""Tracking of errno along every path.  In the expansion of every debug output statement nothing that can change
errno is called before start(); creating the thread's state (instance()) leaves errno as it was on every path;
start() stores, for a new output and for a continued one, the value errno had on entry; finish() names and describes
exactly that stored value.  Every function of the library that opens a file or an ELF, DWARF or dwfl handle has, on
every return path, put the entry value of errno back after the last call that could change it (or every one of its
callers does)."""
from output import *

FLOORS = {"statements": 10, "new outputs": 10, "continued outputs": 1, "error texts": 4, "openers": 2, "return paths": 4}
SAFE = (r"__errno_location$", r"^operator delete", r"^llvm\.", r"^__clang_call_terminate$", r"^free$")
OPENERS = r"^(open|open64|openat|fopen|fopen64|dwfl_begin|dwfl_report_offline|dwfl_module_getdwarf|dwarf_begin|dwarf_begin_elf|elf_begin|std::basic_ifstream.*::(open|basic_ifstream))$"
E0 = ("o", "errno0")


class E(Rule):
    """p: does errno have its entry value?"""

    def __init__(self, keepers=()):
        self.keepers = keepers
        self.rets = []

    def start(self, fl, st):
        st.p = "entry"

    def call(self, fl, st, ins, args):
        c = ins.callee or "indirect"
        if c == "__errno_location":
            return ("val", ERRNO)
        if not any(re.search(x, c) for x in SAFE) and c not in self.keepers:
            st.p = "changed after " + (ins.callee or "a call")
            st.mem.pop(ERRNO, None)
        return ("pure",)

    def load(self, fl, st, ins, a, f):
        if a == ERRNO:
            fl.wd[E0] = 32
            return ("val", E0 if st.p == "entry" else ("i", ins.id))
        return None

    def store(self, fl, st, ins, a, v, f):
        if a == ERRNO:
            st.p = "entry" if v == E0 else "changed by an assignment"
        return None

    def modifies(self, fl, st, ins, args):
        return []

    def ret(self, fl, st, ins, val):
        self.rets.append((ins, st.p))


def preserves(ctx, fn, keepers=()):
    r = E(keepers)
    analyse(fn, r, 200000)
    ctx.analysed(fn)
    bad = [(i, p) for i, p in r.rets if p != "entry"]
    ctx.count("return paths", len(r.rets))
    return bad, len(r.rets)


def run(ctx):
    statements(ctx)
    prog, s = summaries(ctx)
    captured(ctx, prog, *s["start"])
    shown(ctx, prog, *s["finish"])
    lookups(ctx)


class St(Sym):
    def known(self, fl, st, ins, args, c):
        if c.endswith("ThreadSpecificData::instance"):
            return ("val", ("o", "tsd"))
        m = re.search(r"DebugObject_ThreadSpecificData::(start|finish|fatal_finish)$", c)
        self.event(st, m.group(1) if m else c)
        return ("pure",)


def statements(ctx):
    prog = inl(dump=[r"^w_"], witnesses=["dout.cc"],
               noinline=[r"^libcwd::DebugObject_ThreadSpecificData::(start|finish|fatal_finish)$", r"ThreadSpecificData::instance$", r"^libcwd::Indent::", r"DebugStack"])
    ok = SAFE + (r"DebugStack<.*>::(push|pop|top)$", r"^libcwd::ChannelSet(Bootstrap)?::operator\|$", r"^w_operand")
    for fn in prog.match(r"^w_"):
        r = St(ctx)
        fl = analyse(fn, r)
        seen = False
        for st in [x[0] for x in r.rets] + [x[0] for x in r.ends]:
            ev = [e[0] for e in r.events(st)]
            if "start" not in ev:
                continue
            seen = True
            for c in ev[:ev.index("start")]:
                if not any(re.search(x, c) for x in ok) or c.startswith("w_operand"):
                    ctx.violation("statement|" + fn.base, "%s calls %s before errno is captured" % (fn.base, c), fn.loc())
        if seen:
            ctx.count("statements")
            ctx.analysed(fn)
            ctx.ok(fn.base + ": nothing that can change errno is called before start()")


def captured(ctx, prog, fn, r, fl):
    bad = lambda ins, msg: ctx.violation("start|" + msg.split(" (")[0], "start() " + msg, ins.where())
    want = ("m0", ERRNO)
    SPECIAL = BIT["continued"] | BIT["finish"]
    for st, ins, val in r.rets:
        ms = models(fl, st, r.S, SPECIAL)
        if not ms:
            continue
        if any(not v & SPECIAL for v in ms):
            cur = st.mem.get(r.f(fl, "current"))
            e = st.mem.get(r.os_(fl, cur, "err")) if cur else None
            ctx.count("new outputs")
            if e != want:
                bad(ins, "does not remember the errno of its caller for a new output (%r)" % (e,))
        if any(v & SPECIAL for v in ms):
            e = st.mem.get(r.os_(fl, r.cur0, "err"))
            ctx.count("continued outputs")
            if e != want:
                bad(ins, "does not remember the errno of its caller for a continued output (%r)" % (e,))
        ctx.ok("%s: errno of the caller stored" % ins.where())


def shown(ctx, prog, fn, r, fl):
    bad = lambda ins, msg: ctx.violation("finish|" + msg.split(" (")[0], "finish() " + msg, ins.where())
    err = ("m0", r.os_(fl, r.cur0, "err"))
    for st, ins in [(x[0], x[1]) for x in r.rets + r.ends]:
        for m in models(fl, st, r.M0, BIT["error"]):
            calls = [e for e in r.events(st) if e[0] == "call" and re.search(r"strerror|strerrno", e[1])]
            if any(e[2][0] != err for e in calls):
                bad(ins, "describes another error number than the one stored at the start of the statement")
            else:
                ctx.count("error texts")


def lookups(ctx):
    rp = raw()
    names, dems = set(), set()
    for f in rp.fns.values():
        for i in f.calls(OPENERS):
            names.add(f.base)
            dems.add(f.dem)
    inst = TSD + "::instance"
    todo = sorted(names)
    cg = {}
    for f in rp.fns.values():
        for i in f.calls(r"."):
            cg.setdefault(i.callee, set()).add(f.base)
    ctx.count("openers", len(todo))
    rx = "^(%s)$" % "|".join(re.escape(n) for n in todo + [inst])
    prog = inl(dump=[rx], noinline=[rx, r"^libcwd::DebugObject_ThreadSpecificData::", r"::S_create$", r"^libcwd::Location", r"^libcwd::Channel", r"DebugStack"])
    for fn in prog.match("^" + re.escape(inst) + "$"):
        bad, n = preserves(ctx, fn)
        for i, p in bad:
            ctx.violation("errno|instance", "instance() returns with errno %s" % p, i.where())
        if not bad and n:
            ctx.ok("instance(): errno unchanged on all %d return paths" % n)
    for name in todo:
        for fn in prog.match("^" + re.escape(name) + "$"):
            if fn.dem not in dems:
                continue        # a member of a class that is local to the function
            b, n = preserves(ctx, fn)
            if not b:
                ctx.ok("%s: errno unchanged on every return path" % name)
                continue
            why = callers_preserve(ctx, rp, cg, name, set())
            if why is None:
                ctx.ok("%s: every caller puts errno back" % name)
            else:
                for i, p in b:
                    ctx.violation("errno|" + name, "%s opens files and returns with errno %s (%s)" % (name, p, why), i.where())


def callers_preserve(ctx, rp, cg, name, seen, depth=0):
    """None if every caller restores errno, else the reason"""
    cs = cg.get(name, set()) - {name}
    if not cs:
        return "no caller restores it"
    if depth > 4:
        return "call chain too long"
    for c in sorted(cs):
        if c in seen:
            continue
        seen.add(c)
        rx = "^%s$" % re.escape(c)
        prog = inl(dump=[rx], noinline=[rx, "^%s$" % re.escape(name), r"^libcwd::DebugObject_ThreadSpecificData::", r"^libcwd::Channel", r"DebugStack"])
        for fn in prog.match(rx):
            if c == "libcwd::ObjectFileRegistry::register_initial_object_files" or c.endswith("register_initial_object_files"):
                continue        # runs during initialization, before any debug statement
            b, n = preserves(ctx, fn)
            if b:
                w = callers_preserve(ctx, rp, cg, c, seen, depth + 1)
                if w is not None:
                    return "%s does not restore it" % c
    return None
