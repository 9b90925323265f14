"""Typestate of a debug object's output stream: the pair (stream, user lock) is only touched inside the internal
section of its OstreamState, and the stream is written only while the user lock of that pair is held.
All functions of OstreamState are inlined into the functions that use them."""
from sym import *
from output import DOTSD, TSD, NOINL

OS = "libcwd::_private_::OstreamState"
FM, FR = OS + "::mutex_", OS + "::real_os_"
KEEP = [r for r in NOINL if "OstreamState" not in r] + [r"^libcwd::DebugString::(internal_)?(?!c_str|size)", r"DebugObject::NS_init",
        r"NS_initialize", r"^libcwd::core_dump$", r"^libcwd::attach_gdb", r"DebugChannels", r"^libcwd::read_rcfile"]
LK = {"lock": r"LockInterfaceBase::lock$", "unlock": r"LockInterfaceBase::unlock$", "try": r"LockInterfaceBase::try_lock$"}
# p = (sm, mx, ro, lock, olds, bufs, flag, failed, nlock, writes, waited, nul)
P = dict(sm=0, mx=1, ro=2, lock=3, old=4, bufs=5, flag=6, failed=7, nlock=8, wrote=9, waited=10, set=11, reals=12, newm=13, newr=14, freed=15, held=16)


def accessors(rp):
    """functions outside OstreamState that touch the pair, directly or through OstreamState's members"""
    touch = set()
    n = 0
    for f in rp.fns.values():
        for i in f.instrs():
            if i.op in ("load", "store", "atomicrmw", "cmpxchg") and f.fld(i) in (FM, FR) or \
               i.op == "getelementptr" and rp.field(i.get("path") or "") in (FM, FR) and not f.base.startswith(OS):
                touch.add(f.name)
                n += 1
    if n < 4:
        raise Broken("only %d accesses to the stream and lock of a debug object found" % n)
    roots = {}
    work = list(touch)
    seen = set(work)
    callers = {}
    for f in rp.fns.values():
        for i in f.calls():
            c = i.get("callee")
            if c:
                callers.setdefault(c, set()).add(f.name)
    while work:
        x = work.pop()
        f = rp.fns[x]
        if f.base.startswith(OS + "::"):
            if f.base.endswith("::OstreamState"):
                continue
            for c in callers.get(x, ()):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
            if not callers.get(x):
                roots[x] = f
        else:
            roots[x] = f
    return roots


class Stream(Rule):
    max_states = 3000
    unroll = 1

    def __init__(self, ctx, prog, writers, taking):
        self.ctx, self.prog = ctx, prog
        self.d = prog.offset(OS, "state_mutex_")
        self.fo = {FM: prog.offset(OS, "mutex_"), FR: prog.offset(OS, "real_os_")}
        self.writers = writers
        self.taking = taking
        self.v = []         # (which check, ins, msg)

    def start(self, fl, st):
        st.p = ((), None, None, None, (), (), 0, 0, 0, 0, 0, 0, (), None, None, 0, None)

    def g(self, st, k):
        return st.p[P[k]]

    def s(self, st, **kw):
        p = list(st.p)
        for k, v in kw.items():
            p[P[k]] = v
        st.p = tuple(p)

    def keep_mem(self, fl, a, f):
        return f in self.fo

    def keep(self, fl, t):
        return True

    def bad(self, which, ins, msg):
        self.v.append((which, ins, msg))

    def owner(self, fl, a, f):
        return fl.mk_add(a, self.d - self.fo[f])

    def acc(self, fl, st, ins, a, f):
        if f not in self.fo or fl.root(a)[0] == "al":
            return
        self.ctx.count("accesses to the pair")
        if self.owner(fl, a, f) not in self.g(st, "sm"):
            self.bad("C04", ins, "%s %s outside the internal section that protects it" % (
                "reads" if ins.op == "load" else "writes", f.split("::")[-1]))

    def line(self, fl, st, ins, f):
        if f in ("libcwd::DebugObject::newlineless_tsd_", "libcwd::DebugObject::unfinished_oss_"):
            self.ctx.count("uses of the unfinished line")
            mx = self.g(st, "mx")
            if not self.g(st, "lock") and not (mx is not None and fl.is_const(st, mx, 0)):
                self.bad("C03", ins, "%s %s without holding the lock" % ("reads" if ins.op == "load" else "writes", f.split("::")[-1]))

    def load(self, fl, st, ins, a, f):
        self.line(fl, st, ins, f)
        if f in self.fo:
            self.acc(fl, st, ins, a, f)
            v = fl.mem_load(st, a, f, ins)
            self.s(st, **{"mx" if f == FM else "ro": v})
            return ("val", v)
        if f and f.endswith("::current_bufferstream"):
            v = fl.mem_load(st, a, f, ins)
            if fl.root(v) != v and v[0] != "idx":
                return ("val", v)
            if v not in self.g(st, "bufs"):
                self.s(st, bufs=self.g(st, "bufs")[-3:] + (v,))
            return ("val", v)
        return None

    def store(self, fl, st, ins, a, v, f):
        self.line(fl, st, ins, f)
        if f in self.fo:
            self.acc(fl, st, ins, a, f)
            if f == FM:
                if not self.g(st, "set") & 1:
                    self.s(st, old=self.g(st, "mx") or ("unread",), waited=0)
                self.s(st, set=self.g(st, "set") | 1, newm=v)
            else:
                self.s(st, set=self.g(st, "set") | 2, newr=v)
        if f and f.startswith("libcwd::_private_::LockInterface::"):
            self.s(st, held=(fl.root(a), v))
        if f and f.endswith("::current_bufferstream"):
            self.s(st, bufs=self.g(st, "bufs")[-3:] + (v,))
        if f and f.endswith("::lock_interface_is_locked"):
            on = fl.const_of(st, v) != 0
            self.ctx.count("lock reports")
            if on and not self.g(st, "lock"):
                self.bad("C03", ins, "reports the output as locked while the lock is not held")
            self.s(st, flag=1 if on else 0)
        return None

    def call(self, fl, st, ins, args):
        c = ins.callee or "indirect"
        if args and self.g(st, "old") and args[0] == self.g(st, "old") and args[0] != ("unread",) and (
                c == "operator delete" or c.startswith("virtual") and "LockInterfaceBase" in c and not any(re.search(r, c) for r in LK.values())):
            self.ctx.count("replaced locks destroyed")
            if self.g(st, "sm"):
                self.bad("C04", ins, "destroys the replaced lock inside the internal section")
            if self.g(st, "waited") != args[0]:
                self.bad("C04", ins, "destroys a lock that another thread may still hold")
            if self.g(st, "freed"):
                self.bad("C04", ins, "destroys the replaced lock twice")
            self.s(st, freed=1)
            return ("val", C(0))
        m = re.search(r"^(?:std::mutex::|(?:__gthrw_|__gthread_)?(?:pthread_)?mutex_)(lock|unlock|try_?lock)$", c)
        if m and args:
            return self.section(fl, st, ins, args[0], m.group(1))
        for k, rx in LK.items():
            if re.search(rx, c):
                return self.user(fl, st, ins, args[0], k)
        if re.search(r"::~?basic_ostream$", c):
            return ("pure",)
        if re.search(r"^std::.*ostream|^std::operator<<|^std::flush|^std::endl|^std::ostream", c) and args:
            return self.write(fl, st, ins, args[0], c)
        if c.startswith("libcwd::operator<<") or c.endswith(("write_whitespace_to", "write_prefix_to")):
            return self.write(fl, st, ins, args[1] if c.endswith("write_prefix_to") else args[0], c)
        if self.g(st, "lock") and c.startswith("libcwd::"):
            if ins.get("callee") in self.taking:
                self.bad("C04", ins, "calls %s, which can take the internal section, while it holds the user's lock" % c)
        if self.g(st, "sm") and (c.startswith("libcwd::") or c.startswith("virtual libcwd") or c == "indirect") and ins.get("callee") in self.taking:
            self.bad("C04", ins, "calls %s inside the internal section" % c)
        if self.g(st, "flag") and not self.g(st, "lock") and c.startswith("libcwd::") and "::start" in c:
            self.bad("C03", ins, "starts other output while it reports the stream as locked without holding the lock")
        if c.endswith("fatal_finish") or c in ("abort", "_Exit", "std::terminate", "libcwd::core_dump", "exit"):
            self.done(fl, st, ins, fatal=True)
            st.dead = True
            return None
        return None

    def modifies(self, fl, st, ins, args):
        return None

    def section(self, fl, st, ins, a, what):
        if what.startswith("try"):
            self.bad("C04", ins, "uses a conditional lock for the internal section")
            return None
        sm = self.g(st, "sm")
        if what == "lock":
            self.ctx.count("internal sections")
            if a in sm:
                self.bad("C04", ins, "takes the internal section twice")
            if self.g(st, "lock"):
                self.bad("C04", ins, "takes the internal section while it holds the user's lock")
            for x in [x for x in st.mem if fl.fldof.get(x) in self.fo]:
                del st.mem[x]
            ro = self.g(st, "ro")
            if ro and ro not in self.g(st, "reals"):
                self.s(st, reals=self.g(st, "reals")[-2:] + (ro,))
            # 2: the last attempt failed, 1: an earlier one did
            self.s(st, sm=sm + (a,), mx=None, ro=None, set=0, waited=0, old=(), failed=min(1, self.g(st, "failed")))
        else:
            if a not in sm:
                self.bad("C04", ins, "leaves an internal section that it is not in")
            if self.g(st, "set"):
                self.replaced(fl, st, ins)
            self.s(st, sm=tuple(x for x in sm if x != a), set=0)
        return ("val", C(0))

    def replaced(self, fl, st, ins):
        """the pair was changed in this section: the old lock must have been passed through"""
        self.ctx.count("replacements")
        old = self.g(st, "old") if self.g(st, "set") & 1 else self.g(st, "mx")
        if self.g(st, "set") == 1:
            self.bad("C04", ins, "replaces the lock without the stream")
        if old is None or old == ("unread",) or old == ():
            self.bad("C04", ins, "changes the stream without looking whether a lock is installed")
            return
        if fl.is_const(st, old, 0):
            return
        if self.g(st, "waited") != old:
            self.bad("C04", ins, "replaces the stream without waiting for a writer that selected the old one")

    def user(self, fl, st, ins, m, k):
        p = self.g(st, "lock")
        if k == "unlock":
            if p is None:
                self.bad("C03", ins, "unlocks a lock that it does not hold")
            elif p != m:
                self.bad("C03", ins, "unlocks another lock than the one it holds")
            if self.g(st, "sm") and p == m:
                self.s(st, waited=m)
            self.s(st, lock=None)
            return ("val", C(0))
        self.ctx.count("lock acquisitions")
        if not self.g(st, "sm"):
            self.bad("C04", ins, "locks the stream's lock outside the internal section")
        if m != self.g(st, "mx") and m != self.g(st, "old"):
            self.bad("C03", ins, "locks something else than the lock that belongs to the stream")
        if p is not None:
            self.bad("C03", ins, "locks while it already holds a lock")
        if k == "lock":
            self.s(st, lock=m, nlock=min(self.g(st, "nlock") + 1, 3), failed=0)
            return ("val", C(0))
        st2 = st.copy()
        self.s(st, lock=m, nlock=min(self.g(st, "nlock") + 1, 3), failed=0)
        self.s(st2, failed=2)
        return [(st, C(1)), (st2, C(0))]

    def write(self, fl, st, ins, os, c):
        bufs = self.g(st, "bufs")
        r = fl.root(os)
        if "current_bufferstream" in fl.fn.path(ins.ops[0]):
            return ("val", os)
        if os in bufs or any(fl.root(b) == r for b in bufs) or r[0] == "al":
            return None
        if not self.writers:
            return None
        self.ctx.count("writes to the stream")
        ok = False
        lock, mx, ro = self.g(st, "lock"), self.g(st, "mx"), self.g(st, "ro")
        self.s(st, wrote=max(1, self.g(st, "wrote")))
        if lock is not None:
            ok = lock == mx
        elif mx is not None and fl.is_const(st, mx, 0):
            ok = True
        elif self.g(st, "sm") and self.g(st, "failed"):
            ok = True           # the way out of a thread that is about to end the program, checked by done()
            self.s(st, wrote=2)
        if not ok:
            self.bad("C03", ins, "writes to the stream without holding the lock that belongs to it")
        if os in self.g(st, "reals") and os != ro:
            self.bad("C03", ins, "writes to a stream that was selected before the lock was taken")
        return ("val", os)

    def done(self, fl, st, ins, fatal=False):
        if self.g(st, "lock") and not fatal:
            self.bad("C03", ins, "returns without unlocking the lock")
        if self.g(st, "lock") and fatal:
            self.bad("C03", ins, "starts fatal output while it holds the lock")
        if self.g(st, "nlock") > 1:
            self.bad("C03", ins, "takes the lock more than once for one message")
        if self.g(st, "wrote") == 2 and not fatal:
            self.bad("C03", ins, "writes without the lock although the program does not end")
        if self.g(st, "sm"):
            self.bad("C04", ins, "leaves while it is in the internal section")
        if self.g(st, "flag") and not fatal:
            self.bad("C03", ins, "returns while it still reports the stream as locked")

    def ret(self, fl, st, ins, val):
        self.ctx.count("returns")
        self.done(fl, st, ins)
        if re.match(r"^libcwd::DebugObject::set_ostream\b", fl.fn.base):
            self.asked(fl, st, ins)

    def asked(self, fl, st, ins):
        """set_ostream: what is stored is what the caller passed"""
        self.ctx.count("pairs as asked")
        if self.g(st, "newr") != ("a", 1):
            self.bad("C04", ins, "does not install the stream that it was given")
        if len(fl.fn.args) == 2:
            if self.g(st, "newm") is not None:
                self.bad("C04", ins, "changes the lock although it was only given a stream")
            return
        m = self.g(st, "newm")
        if m is None or fl.is_const(st, m, 0) or self.g(st, "held") != (m, ("a", 2)):
            self.bad("C04", ins, "does not install the lock that it was given")
        old = self.g(st, "old")
        if old and old != ("unread",) and not fl.is_const(st, old, 0) and not self.g(st, "freed"):
            self.bad("C04", ins, "does not destroy the lock that it replaced")

    def branch(self, fl, st, ins, taken):
        return None


def taking(rp):
    """functions that can reach an internal section"""
    m = OS + "::state_mutex_"
    base = {f.name for f in rp.fns.values() for i in f.instrs() if i.op == "getelementptr" and rp.field(i.get("path") or "") == m
            and not f.base.endswith("::OstreamState") and "~" not in f.base}
    if not base:
        raise Broken("anchor vanished: " + m)
    callers = {}
    for f in rp.fns.values():
        for i in f.calls():
            if i.get("callee"):
                callers.setdefault(i.get("callee"), set()).add(f.name)
    work = list(base)
    while work:
        for c in callers.get(work.pop(), ()):
            if c not in base:
                base.add(c)
                work.append(c)
    return base


def check(ctx, which):
    rp = raw(witnesses=["lock.cc"])
    roots = accessors(rp)
    tk = taking(rp)
    prog = inl(dump=["^" + re.escape(f.base) + "$" for f in roots.values()], noinline=KEEP, witnesses=["lock.cc"])
    for r in roots.values():
        fn = prog.fns.get(r.name)
        if fn is None:
            raise Broken("anchor vanished: %s" % r.dem)
        rule = Stream(ctx, prog, True, tk)
        analyse(fn, rule, 400000)
        ctx.analysed(fn)
        n = 0
        for w, ins, msg in rule.v:
            if w == which:
                n += 1
                ctx.violation("%s|%s" % (fn.base, msg), "%s %s" % (fn.base, msg), ins.where())
        if not n:
            ctx.ok("%s: every path" % fn.dem)
    return rp, prog, roots
