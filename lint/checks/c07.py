"""Symbolic summaries of DebugObject_ThreadSpecificData::start, ::finish and ::init (every path) and of the
output-state stack.  start() of new output: when output is in progress (start_expected false) it pushes exactly
the interrupted state, indents by 4 and inherits only the cerr flag, otherwise it does neither; the fresh state is
made current.  The final part of finish(): writes and deletes exactly the current state, and, when nested output
had been started in it, pops exactly one entry and undents by 4; then the top of the stack (or the dummy) is current
again, with its own stream.  No other member changes, so the pairs match for every depth.  DebugStack: what is
pushed is what top() returns, pop() undoes one push.  During all of it the off counter of this object is raised and
it has its old value at every return; the same balance is required of every other function of the library
that raises that counter."""
from output import *

FLOORS = {"paths of start": 20, "paths of finish": 20, "nested starts": 2, "nested finishes": 2, "stack operations": 4}
DUMMY = "libcwd::_private_::WST_dummy_output_state"


def run(ctx):
    prog, s = summaries(ctx)
    start(ctx, prog, *s["start"])
    finish(ctx, prog, *s["finish"])
    stack(ctx)
    init(ctx)
    balance(ctx)


def kinds(ev, k):
    return [e for e in ev if e[0] == k]


def is_dummy(prog, t):
    return t[0] == "g" and prog.globals.get(t[1], {}).get("dem", "") == DUMMY


def start(ctx, prog, fn, r, fl):
    SE = ("m0", r.f(fl, "start_expected"))
    bad = lambda ins, msg: ctx.violation("start|" + msg.split(" (")[0], "start() " + msg, ins.where())
    stackobj = r.f(fl, "output_state_stack")
    for st, ins, val in r.rets:
        SPECIAL = BIT["continued"] | BIT["finish"]
        ms = models(fl, st, r.S, SPECIAL)
        if not ms:
            continue        # contradictory facts: no execution takes this path
        fresh = [v for v in ms if not v & SPECIAL]
        ev = r.events(st)
        new = kinds(ev, "new")
        if not fresh:
            if new or kinds(ev, "push") or st.mem.get(r.f(fl, "indent"), ("m0", r.f(fl, "indent"))) != ("m0", r.f(fl, "indent")):
                bad(ins, "starts a new output for a continued one")
            continue
        ctx.count("new outputs started")
        if len(new) != 1 and not (len(new) > 1):
            bad(ins, "does not create an output state")
            continue
        cur = st.mem.get(r.f(fl, "current"))
        states = [n for n in new if cur == n[1]]
        if not states:
            bad(ins, "does not make the new output state current (current = %r)" % (cur,))
            continue
        pushes = kinds(ev, "push")
        pops = kinds(ev, "pop")
        ind = st.mem.get(r.f(fl, "indent"), ("m0", r.f(fl, "indent")))
        i0 = ("m0", r.f(fl, "indent"))
        mask = st.mem.get(r.os_(fl, cur, "mask"))
        lab = st.mem.get(r.os_(fl, cur, "label"))
        err = st.mem.get(r.os_(fl, cur, "err"))
        for se in (0, 1):
            if not fl.consistent(st, {SE: se, r.S: fresh[0]}):
                continue
            if se == 0:
                ctx.count("nested starts")
                if len(pushes) != 1 or pushes[0][1] != stackobj or pushes[0][2] != (r.cur0,) or pops:
                    bad(ins, "does not push exactly the interrupted output state")
                if ind != fl.mk_add(i0, 4):
                    bad(ins, "does not indent nested output by 4 (%r)" % (ind,))
                fm = lambda S, M: S | (M & BIT["cerr"])
            else:
                ctx.count("first starts")
                if pushes or pops:
                    bad(ins, "pushes an output state although nothing is interrupted")
                if ind != i0:
                    bad(ins, "changes the indentation although nothing is interrupted (%r)" % (ind,))
                fm = lambda S, M: S
            for v in fresh[:16]:
                for m in (0, BIT["cerr"], BIT["flush"] | BIT["error"] | BIT["nonewline"], (1 << 16) - 1):
                    if not fl.consistent(st, {SE: se, r.S: v, r.M0: m}):
                        continue
                    x = fl.evalterm(mask, {r.S: v, r.M0: m}) if mask is not None else None
                    if x is None:
                        bad(ins, "does not give the new state the flags of the statement (%r)" % (mask,))
                    elif x != fm(v, m):
                        bad(ins, "gives the new state flags %#x for statement flags %#x and interrupted flags %#x (nested: %s)" % (x, v, m, not se))
                    else:
                        ctx.count("flag combinations")
        if lab != ("m0", fl.mk_add(r.cs, prog.offset("libcwd::ChannelSetData", "label"))):
            bad(ins, "does not give the new state the label of the statement (%r)" % (lab,))
        bs = st.mem.get(r.f(fl, "current_bufferstream"))
        if bs != r.os_(fl, cur, "bufferstream"):
            bad(ins, "does not select the stream of the new state (%r)" % (bs,))
        for n, want in (("start_expected", 0), ("unfinished_expected", 1)):
            if fl.const_of(st, st.mem.get(r.f(fl, n), ("m0", r.f(fl, n)))) != want:
                bad(ins, "does not set %s to %d" % (n, want))
        only(ctx, fl, st, ins, r, prog, "start()", ("indent", "current", "current_bufferstream", "start_expected", "unfinished_expected"), bad)
        suppressed(r, st, ins, bad)
        ctx.ok("%s: path of start() with %s" % (ins.where(), len(ev)))


def finish(ctx, prog, fn, r, fl):
    SE = ("m0", r.f(fl, "start_expected"))
    FLUSHO = fl.mk_add(r.obj, prog.offset("libcwd::DebugObject", "always_flush_"))
    bad = lambda ins, msg: ctx.violation("finish|" + msg.split(" (")[0], "finish() " + msg, ins.where())
    stackobj = r.f(fl, "output_state_stack")
    for st, ins, val in r.rets:
        ms = models(fl, st, r.M0, BIT["continued_cf"] | BIT["finish"])
        if not ms:
            continue
        full = [m for m in ms if not (m & BIT["continued_cf"]) or m & BIT["finish"]]
        ev = r.events(st)
        if not full:
            for k in ("pop", "push", "top", "delete", "new"):
                if kinds(ev, k):
                    bad(ins, "performs a %s while the output stays open" % k)
            only(ctx, fl, st, ins, r, prog, "finish()", ("unfinished_expected",), bad)
            if r.offnet(st) != 0:
                bad(ins, "leaves the off counter changed")
            continue
        ctx.count("outputs finished")
        wr = [e for e in ev if e[0] == "buffer" and e[1] == "writeto"]
        de = kinds(ev, "delete")
        if len(wr) != 1 or wr[0][2][0] != r.os_(fl, r.cur0, "buffer"):
            bad(ins, "does not write the buffer of the finished output exactly once")
        if len(de) != 1 or de[0][1] != r.cur0:
            bad(ins, "does not delete the finished output state exactly once")
        elif wr and ev.index(de[0]) < ev.index(wr[0]):
            bad(ins, "deletes the output state before writing it")
        pops, pushes, tops, sizes = (kinds(ev, k) for k in ("pop", "push", "top", "size"))
        ind, i0 = st.mem.get(r.f(fl, "indent"), ("m0", r.f(fl, "indent"))), ("m0", r.f(fl, "indent"))
        for se in (0, 1):
            if not fl.consistent(st, {SE: se, r.M0: full[0]}):
                continue
            if se:
                ctx.count("nested finishes")
                if len(pops) != 1 or pops[0][1] != stackobj or pushes:
                    bad(ins, "does not pop exactly one state after nested output")
                if ind != fl.mk_add(i0, -4):
                    bad(ins, "does not undo the indentation of nested output (%r)" % (ind,))
            else:
                ctx.count("plain finishes")
                if pops or pushes:
                    bad(ins, "pops a state although no nested output was started")
                if ind != i0:
                    bad(ins, "changes the indentation although no nested output was started (%r)" % (ind,))
        for e in tops + sizes:
            if e[1] != stackobj:
                bad(ins, "consults another stack")
            if pops and ev.index(e) < ev.index(pops[0]):
                bad(ins, "consults the stack before popping it")
        cur, bs = st.mem.get(r.f(fl, "current")), st.mem.get(r.f(fl, "current_bufferstream"))
        sz = [e[3] for e in sizes]
        if not sz:
            bad(ins, "does not look whether an output was interrupted")
            continue
        empty = fl.consistent(st, {z: 0 for z in sz})
        some = fl.consistent(st, {z: 1 for z in sz}) or fl.consistent(st, {z: 5 for z in sz})
        if empty:
            if not is_dummy(prog, cur) or fl.const_of(st, bs) != 0:
                bad(ins, "with nothing interrupted does not select the dummy state (current = %r)" % (cur,))
            ctx.count("finishes with nothing interrupted")
        if some:
            ctx.count("finishes that resume an output")
            if not tops or cur != tops[-1][3] or bs != r.os_(fl, cur, "bufferstream"):
                bad(ins, "does not make the interrupted state current with its stream (current = %r)" % (cur,))
            else:
                ma = r.os_(fl, cur, "mask")
                m = st.mem.get(ma, ("m0", ma))
                for f in full:
                    for old in (0, BIT["flush"], BIT["cerr"] | BIT["continued_cf"]):
                        for lvl in (0, 1):
                            env = {r.M0: f, ("m0", ma): old, ("m0", FLUSHO): lvl}
                            if not fl.consistent(st, env):
                                continue
                            x = fl.evalterm(m, env)
                            fl1 = (f & BIT["flush"]) or lvl
                            if x is None or x not in ((old | BIT["flush"],) if fl1 else (old,)):
                                bad(ins, "gives the resumed state flags %s instead of %#x%s" % (x, old, " plus flush" if fl1 else ""))
        for n, want in (("start_expected", 1), ("unfinished_expected", 0)):
            if fl.const_of(st, st.mem.get(r.f(fl, n), ("m0", r.f(fl, n)))) != want:
                bad(ins, "does not set %s to %d" % (n, want))
        only(ctx, fl, st, ins, r, prog, "finish()", ("indent", "current", "current_bufferstream", "start_expected", "unfinished_expected"), bad)
        suppressed(r, st, ins, bad)
        ctx.ok("%s: path of finish() with %s" % (ins.where(), len(ev)))


def only(ctx, fl, st, ins, r, prog, what, members, bad):
    allowed = {r.f(fl, m) for m in members}
    for a, v in r.changed(fl, st).items():
        if fl.root(a) == r.this and a not in allowed:
            bad(ins, "changes another member: %s" % fl.fldof.get(a, a))


def suppressed(r, st, ins, bad):
    if r.offnet(st) != 0:
        bad(ins, "leaves the off counter of the debug object changed by %s" % r.offnet(st))
    for e in r.events(st):
        if e[0] in ("os", "buffer", "ostate", "virtual", "call", "push", "pop") and (e[-1] is None or e[-1] < 1):
            bad(ins, "does %s %s while debug output of this object is not suppressed" % (e[0], e[1] if isinstance(e[1], str) else e[2]))


def stack(ctx):
    """DebugStack<T>: what top() returns is what the matching push() stored"""
    prog = inl(dump=[r"^libcwd::_private_::DebugStack<.*>::(push|pop|top|size|init)$"], noinline=[r"^libcwd::core_dump$", r"print_pop_error"])
    groups = {}
    for fn in prog.match(r"^libcwd::_private_::DebugStack<.*>::(push|pop|top|size|init)$"):
        groups.setdefault(fn.base.rsplit("::", 1)[0], {})[fn.base.rsplit("::", 1)[1]] = fn
    for cls, ops in groups.items():
        res = {}
        for name, fn in ops.items():
            r = StackSym(ctx)
            fl = analyse(fn, r)
            res[name] = (fn, r, fl)
            ctx.analysed(fn)
            ctx.count("stack operations")
        stack_ops(ctx, cls, res)
    if len(groups) < 1:
        raise Broken("anchor vanished: DebugStack")


class StackSym(Sym):
    def known(self, fl, st, ins, args, c):
        if c.endswith("print_pop_error"):       # does not return: C11
            self.end(fl, st, ins)
            return ("pure",)
        if c == "libcwd::core_dump" or c in ("abort", "std::abort") or "fatal" in c:
            self.end(fl, st, ins)
            return ("pure",)
        return None


def stack_ops(ctx, cls, res):
    this = ("a", 0)

    def bad(n, ins, msg):
        ctx.violation("stack|%s::%s" % (cls, n), "%s::%s %s" % (cls, n, msg), ins.where())
    top = None      # address of the pointer to the top, found in top(): the value returned is *(*this.p)
    for need in ("push", "pop", "top", "size"):
        if need not in res:
            raise Broken("%s::%s is not used any more" % (cls, need))
    fn, r, fl = res["top"]
    for st, ins, val in r.rets:
        if val is None or val[0] != "m0" or val[1][0] != "m0":
            raise Broken("%s::top does not return what the top pointer points to (%r)" % (cls, val))
        if r.changed(fl, st):
            bad("top", ins, "changes the stack")
        top = val[1][1]
        esize = fl.w(val) // 8
        ctx.ok("%s::top returns the element at the top pointer" % cls)
    if top is None:
        raise Broken("%s::top never returns" % cls)
    P = ("m0", top)
    fn, r, fl = res["push"]
    for st, ins, val in r.rets:
        ch = r.changed(fl, st)
        np = ch.get(top)
        if np != fl.mk_add(P, esize):
            bad("push", ins, "does not advance the top pointer by one element (%r)" % (np,))
        elif st.mem.get(np) != ("a", 1) or set(ch) != {top, np}:
            bad("push", ins, "does not store exactly the pushed value at the new top")
        else:
            ctx.ok("%s::push stores the value at the new top" % cls)
    fn, r, fl = res["pop"]
    for st, ins, val in r.rets:
        ch = r.changed(fl, st)
        if set(ch) != {top} or ch[top] != fl.mk_add(P, -esize):
            bad("pop", ins, "does not move the top pointer back by one element")
        else:
            ctx.ok("%s::pop moves the top pointer back" % cls)
    # size() = number of elements above the initial position
    p0 = None
    if "init" in res:
        fn, r, fl = res["init"]
        for st, ins, val in r.rets:
            p0 = r.changed(fl, st).get(top)
    fn, r, fl = res["size"]
    for st, ins, val in r.rets:
        if r.changed(fl, st):
            bad("size", ins, "changes the stack")
        if p0 is not None:
            for base in (4096, 1 << 20):
                for n in (0, 1, 2, 63):
                    off = p0[2] if p0[0] == "+" else 0
                    env = {this: base, P: base + off + n * esize}
                    if not fl.consistent(st, env):
                        continue
                    x = fl.evalterm(val, env)
                    if x is None:
                        raise Broken("%s::size is not a function of the top pointer (%r)" % (cls, val))
                    if x != n:
                        bad("size", ins, "is %d after %d pushes" % (x, n))
                    else:
                        ctx.ok("%s::size is %d after %d pushes" % (cls, n, n))


def init(ctx):
    prog = inl(dump=[r"^libcwd::DebugObject_ThreadSpecificData::init$"], noinline=[r"DebugStack", r"DebugString"])
    fn = prog.one(DOTSD + "::init")
    ctx.analysed(fn)

    class I(Sym):
        def known(self, fl, st, ins, args, c):
            self.event(st, c.rsplit("::", 1)[-1], tuple(args))
            return ("pure",)
    r = I(ctx)
    fl = analyse(fn, r)
    o = lambda m: fl.mk_add(("a", 0), prog.offset(DOTSD, m))
    for st, ins, val in r.rets:
        bad = lambda msg: ctx.violation("init|" + msg.split(" (")[0], "init() " + msg, ins.where())
        for m, want in (("start_expected", 1), ("unfinished_expected", 0), ("indent", 0), ("off_count", 0), ("current_bufferstream", 0)):
            v = st.mem.get(o(m))
            if v is None or fl.const_of(st, v) != want:
                bad("does not set %s to %d (%r)" % (m, want, v))
            else:
                ctx.ok("init(): %s = %d" % (m, want))
        if not is_dummy(prog, st.mem.get(o("current"), ("c", 0))):
            bad("does not select the dummy state")
        inits = [e[1][0] for e in r.events(st) if e[0] == "init"]
        for m in ("output_state_stack", "continued_stack"):
            if inits.count(o(m)) != 1:
                bad("does not initialize %s" % m)
    if not r.rets:
        raise Broken("init never returns")


EXEMPT = r"^libcwd::(DebugObject::(on|off|force_on|restore|NS_init)|LibcwDebug.*)$"


def balance(ctx):
    """every function that raises or lowers a debug object's off counter restores it before returning"""
    prog = raw()
    RX = r"^libcwd::DebugObject::(on|off)$"
    users = set()
    for f in prog.fns.values():
        if any(True for _ in f.calls(RX)):
            users.add(f.base)
    # summarised elsewhere: init_debug/init_thread leave libcw_do on on purpose (C35), the rcfile reader (C17)
    purpose = (r"init_functions::", r"^libcwd::RcFile::", r"^libcwd::read_rcfile")
    for f in prog.fns.values():
        if f.base not in users or re.match(EXEMPT, f.base) or any(re.search(x, f.base) for x in purpose):
            continue
        ctx.count("functions that switch a debug object")
        ctx.analysed(f)
        r = Bal(ctx)
        fl = analyse(f, r)
        if r.bad:
            for ins, n in r.bad:
                ctx.violation("balance|" + f.base, "%s returns with the off counter of a debug object changed by %+d" % (f.dem, n), ins.where())
        else:
            ctx.ok("%s: off() and on() are balanced on every path" % f.dem)


class Bal(Rule):
    def __init__(self, ctx):
        self.bad = []

    def start(self, fl, st):
        st.p = ()

    def call(self, fl, st, ins, args):
        m = re.match(r"^libcwd::DebugObject::(on|off)$", ins.callee or "")
        if m:
            d = dict(st.p)
            d[args[0]] = d.get(args[0], 0) + (1 if m.group(1) == "off" else -1)
            if abs(d[args[0]]) > 4:
                self.bad.append((ins, d[args[0]]))
                st.dead = True
            st.p = tuple(sorted((k, v) for k, v in d.items() if v))
            return ("pure",)
        return None

    def ret(self, fl, st, ins, val):
        for k, v in st.p:
            self.bad.append((ins, v))
