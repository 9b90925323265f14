"""What attach_gdb() runs, and in which process.

Every path through attach_gdb() is followed.  A command is run only in the child (the result of fork() is zero), only with text from a
buffer whose formatting is known to have fit (the result of snprintf compared with the size it was given, which is
not more than the buffer's), recursively for the buffers it was made from, and with every configured string known to be not
empty.  The child never reaches a return, an exit through the program or a fatal report.  In the parent debug output is
switched off once and on once before every return and every fatal report after the fork, never before the fork."""
from core import *
from flow import Rule, analyse, C, width

FLOORS = {"commands run": 1, "buffers formatted": 1, "returns": 1, "fatal reports": 3}
TECHNIQUE = "path-sensitive typestate of attach_gdb(): process, debug output, and what is known about each buffer"
NOTE = "exceptions from the streams are left out; the contents of the format string of the configuration are not judged"
RUN = re.compile(r"^(system|popen|exec[lv]p?e?|execvpe|posix_spawnp?)$")
LEAVE = re.compile(r"^(_exit|_Exit|abort|raise|kill)$")
WRITES = re.compile(r"^(v?sprintf|strn?cpy|strn?cat|stpn?cpy|memcpy|memmove|memset|llvm\.mem(cpy|move|set).*|read|fgets)$")


class Attach(Rule):
    max_states = 400
    merge = False

    def __init__(self, prog, ctx, fn):
        self.prog, self.ctx, self.fn = prog, ctx, fn
        self.bad, self.sites = {}, {}
        self.strings = set()

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), st.path()))

    def seen(self, kind, ins):
        self.sites.setdefault(kind, set()).add(ins.id)

    # p = (formatted buffers, (result of fork,), off() calls, on() calls)
    def start(self, fl, st):
        st.p = ((), (), 0, 0)

    def drop(self, fl, st, a):
        r = fl.root(a)
        st.p = (tuple(x for x in st.p[0] if x[0] != r),) + st.p[1:]

    def store(self, fl, st, ins, a, v, f):
        if any(fl.root(a) == x[0] for x in st.p[0]):
            self.drop(fl, st, a)

    def load(self, fl, st, ins, a, f):
        if a == ("g", "libcwd_attach_gdb_hook"):        # the debugger writes to it
            t = ("i", ins.id)
            fl.wd[t] = width(ins.get("t"))
            return ("val", t)

    def process(self, fl, st):
        if not st.p[1]:
            return "n"
        q = fl.possible(st, st.p[1][0], 32)
        return "c" if q == ((0, 0),) else "p" if all(not a <= 0 <= b for a, b in q) else "?"

    def rcstring(self, fl, o):
        r = fl.root(o)
        return o if r[0] == "g" and r[1] == "_ZN6libcwd6rcfileE" else None

    def nonempty(self, fl, st, o):
        t = ("size", o)
        fl.wd[t] = 64
        return fl.possible(st, t, 64)[0][0] > 0

    def fits(self, fl, st, buf, depth=0):
        for b, res, n, args in st.p[0]:
            if b == fl.root(buf):
                d = fl.decide(st, fl.mk_icmp("ult", ("sext", 64, res), C(n), 64))
                e = fl.possible(st, res, 32)
                if d is not True and not (e and e[-1][1] < min(n, 1 << 31)):
                    return "whose text may have been cut off"
                for x in args:
                    if fl.root(x)[0] == "al" and depth < 4:
                        m = self.fits(fl, st, x, depth + 1)
                        if m and self.fn.ins[fl.root(x)[1]].get("at", "").endswith("x i8]"):
                            return m
                return None
        return "that was not formatted"

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.startswith("llvm.") and not c.startswith("llvm.mem"):
            return ("pure",)
        if c.startswith("std::__cxx11::basic_string<") and args:
            m = c.rsplit("::", 1)[-1]
            o = self.rcstring(fl, args[0])
            if o is not None:
                self.strings.add(o)
            t = ("size", args[0])
            fl.wd[t] = 64
            if m in ("size", "length"):
                return ("val", t)
            if m == "empty":
                return ("val", fl.mk_icmp("eq", t, C(0), 64))
            if m in ("c_str", "data"):
                return ("val", ("cstr", args[0]))
        if c in ("snprintf", "vsnprintf"):
            self.seen("buffers formatted", ins)
            self.drop(fl, st, args[0])
            res = ("i", ins.id)
            fl.wd[res] = 32
            r, n = fl.root(args[0]), args[1]
            if n[0] != "c" or r[0] != "al" or args[0] != r or n[1] > (self.fn.ins[r[1]].get("sz") or 0):
                self.report(st, ins, "formats more than the buffer can hold")
                return ("pure",)
            keep = tuple(a for a in args[2:] if a[0] in ("al", "cstr"))
            st.p = (st.p[0] + ((r, res, n[1], keep),),) + st.p[1:]
            return ("val", res)
        if WRITES.match(c) and args:
            self.drop(fl, st, args[0])
        if c in ("fork", "vfork"):
            self.seen("forks", ins)
            if st.p[1]:
                self.report(st, ins, "forks twice")
            t = ("i", ins.id)
            fl.wd[t] = 32
            st.p = (st.p[0], (t,)) + st.p[2:]
            return ("val", t)
        if RUN.match(c):
            self.seen("commands run", ins)
            if self.process(fl, st) != "c":
                self.report(st, ins, "runs a command outside the child")
            if st.p[2] - st.p[3] != 1:
                self.report(st, ins, "runs the command while debug output is not off")
            for a in args:
                if a[0] == "al" or fl.root(a)[0] == "al":
                    m = self.fits(fl, st, a)
                    if m:
                        self.report(st, ins, "runs a command from a buffer " + m)
            for o in self.strings:
                if not self.nonempty(fl, st, o):
                    self.report(st, ins, "runs a command although a configured one (rcfile%+d) may be empty" % (o[2] if o[0] == "+" and isinstance(o[2], int) else 0))
            return None
        if c.endswith("DebugObject::off"):
            st.p = st.p[:2] + (min(st.p[2] + 1, 3), st.p[3])
            return ("pure",)
        if c.endswith("DebugObject::on"):
            st.p = st.p[:3] + (min(st.p[3] + 1, 3),)
            if st.p[3] > st.p[2]:
                self.report(st, ins, "switches debug output on without having switched it off")
            return ("pure",)
        if c.endswith("DebugObject_ThreadSpecificData::fatal_finish"):
            self.seen("fatal reports", ins)
            if self.process(fl, st) in ("c", "?"):
                self.report(st, ins, "may report a fatal error in the child")
            self.done(fl, st, ins)
            st.dead = True
            return ("pure",)
        if LEAVE.match(c):
            st.dead = True
            return ("pure",)
        if c in ("exit", "quick_exit"):
            if self.process(fl, st) in ("c", "?"):
                self.report(st, ins, "lets the child leave through the program's own cleanup")
            st.dead = True
            return ("pure",)
        return None

    def done(self, fl, st, ins):
        off, on = st.p[2:]
        if off != on:
            self.report(st, ins, "leaves with debug output switched %s" % ("off" if off > on else "on too often"))
        if st.p[1] and off != 1:
            self.report(st, ins, "does not switch debug output off exactly once")
        if not st.p[1] and off:
            self.report(st, ins, "switches debug output without having forked")

    def ret(self, fl, st, ins, v):
        self.seen("returns", ins)
        if self.process(fl, st) in ("c", "?"):
            self.report(st, ins, "may return in the child")
        if self.process(fl, st) == "n":
            self.report(st, ins, "returns without a debugger or a fatal error")
        self.done(fl, st, ins)


def run(ctx):
    prog = inl(dump=[r"^libcwd::attach_gdb$"], noinline=[r"^libcwd::DebugObject::(on|off)$", r"^libcwd::DebugObject_ThreadSpecificData::", r"::instance$",
                                                        r"^std::__cxx11::basic_string<"])
    fn = prog.one("libcwd::attach_gdb")
    ctx.analysed(fn)
    r = Attach(prog, ctx, fn)
    analyse(fn, r, 200000)
    for k, s in r.sites.items():
        ctx.count(k, len(s))
    for msg, (where, p) in r.bad.items():
        ctx.violation("attach_gdb|" + msg, "attach_gdb() " + msg, where, p)
    if not r.bad:
        ctx.ok("attach_gdb()")
