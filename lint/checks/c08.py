"""Symbolic summaries (every path) of the four places that keep track of continued output.  operator|(continued_cf):
on -> push off_count and zero it, off -> ++off_count, and the marker bit is added.  operator|(dc::continued/finish):
on exactly when off_count is zero; then the current output gets the marker bit, the statement takes over its flags
and label, and finish restores off_count from the stack top and pops once; otherwise finish lowers off_count by one
and continued changes nothing.  start() of a continued or finish statement: a path on which the current output does
not expect it never returns; otherwise the current output takes over the flags, and loses the 'expected' bit exactly
for finish; it creates, pushes and indents nothing.  finish(): an output stays open exactly if it has continued_cf
and no finish bit; then it becomes expected again.  The stack operations are those of C07."""
from output import *

FLOORS = {"paths of start": 20, "continued starts": 2, "open finishes": 2, "operator|": 3}
P = "libcwd::ContinuedChannel"


def run(ctx):
    prog, s = summaries(ctx)
    start(ctx, prog, *s["start"])
    finish(ctx, prog, *s["finish"])
    operators(ctx)
    from checks import c07
    c07.stack(ctx)


def start(ctx, prog, fn, r, fl):
    bad = lambda ins, msg: ctx.violation("start|" + msg.split(" (")[0], "start() " + msg, ins.where())
    SPECIAL = BIT["continued"] | BIT["finish"]
    for st, ins, val in r.rets:
        ms = [v for v in models(fl, st, r.S, SPECIAL) if v & SPECIAL]
        ev = r.events(st)
        sp = [e for e in ev if e[0] == "buffer" and e[1] == "store_position"]
        for v in [v for m in models(fl, st, r.M0, BIT["cerr"])[:4] for v in models(fl, st, r.S, SPECIAL | BIT["continued_cf"], {r.M0: m})]:
            if v & SPECIAL:
                continue
            want = 1 if v & BIT["continued_cf"] else 0
            cur = st.mem.get(r.f(fl, "current"))
            if len(sp) != want or (want and sp[0][2][0] != r.os_(fl, cur, "buffer")):
                bad(ins, "%s the position behind the prefix for a statement with%s continued_cf" % ("does not store" if want else "stores", "" if want else "out"))
            ctx.count("new starts")
        if not ms:
            continue
        ctx.count("continued starts")
        for v in ms:
            for m in models(fl, st, r.M0, BIT["expected"], {r.S: v}):
                if not m & BIT["expected"]:
                    bad(ins, "returns for a %s statement although no continued output expects it" % ("finish" if v & BIT["finish"] else "continued"))
                    continue
                ma = r.os_(fl, r.cur0, "mask")
                x = fl.evalterm(st.mem.get(ma, ("m0", ma)), {r.S: v | BIT["expected"], r.M0: m})
                want = (v | BIT["expected"]) & ~(BIT["expected"] if v & BIT["finish"] else 0)
                if x != want:
                    bad(ins, "gives the continued output flags %s instead of %#x" % (x if x is None else hex(x), want))
                else:
                    ctx.count("flag combinations")
        for e in ev:
            if e[0] in ("new", "push", "pop", "delete"):
                bad(ins, "performs a %s for a continued or finish statement" % e[0])
        only(fl, st, ins, r, (), bad)
        for a in r.changed(fl, st):
            if fl.root(a) == r.cur0 and a not in (r.os_(fl, r.cur0, "mask"), r.os_(fl, r.cur0, "err")):
                bad(ins, "changes another member of the continued output: %s" % fl.fldof.get(a, a))
        ctx.ok("%s: continued/finish statement" % ins.where())
    fatal = 0
    for st, ins in r.ends:
        calls = [e for e in r.events(st) if e[0] in ("fatal_finish", "core_dump", "abort")]
        ms = models(fl, st, r.S, SPECIAL)
        if not calls:
            bad(ins, "ends in an unknown way")
        if ms and not [v for v in ms if v & SPECIAL]:
            bad(ins, "ends fatally for an ordinary statement")
        for v in ms:
            if [m for m in models(fl, st, r.M0, BIT["expected"], {r.S: v}) if m & BIT["expected"]]:
                bad(ins, "ends fatally although a continued output expects this statement")
        fatal += 1
    if not fatal:
        bad(next(fn.instrs()), "has no fatal end for a finish without a matching start")
    ctx.count("fatal ends", fatal)


def only(fl, st, ins, r, members, bad):
    allowed = {r.f(fl, m) for m in members}
    for a, v in r.changed(fl, st).items():
        if fl.root(a) == r.this and a not in allowed:
            bad(ins, "changes another member: %s" % fl.fldof.get(a, a))


def finish(ctx, prog, fn, r, fl):
    bad = lambda ins, msg: ctx.violation("finish|" + msg.split(" (")[0], "finish() " + msg, ins.where())
    C_, F_ = BIT["continued_cf"], BIT["finish"]
    for st, ins, val in r.rets:
        ev = r.events(st)
        closed = any(e[0] == "delete" and e[1] == r.cur0 for e in ev)
        for m in models(fl, st, r.M0, C_ | F_ | BIT["continued"]):
            stays = bool(m & C_) and not m & F_
            if stays == closed:
                bad(ins, "%s a continued output" % ("closes" if closed else "does not close"))
                continue
            if not stays:
                continue
            ctx.count("open finishes")
            ma = r.os_(fl, r.cur0, "mask")
            x = fl.evalterm(st.mem.get(ma, ("m0", ma)), {r.M0: m})
            if x != m | BIT["expected"]:
                bad(ins, "does not make the open output expect a continued or finish statement (flags %#x become %s)" % (m, x))
            ua = r.f(fl, "unfinished_expected")
            u = st.mem.get(ua, ("m0", ua))
            if m & BIT["continued"]:
                if fl.const_of(st, u) != 1:
                    bad(ins, "does not remember that the output is unfinished")
            elif u != ("m0", ua):
                bad(ins, "changes unfinished_expected for the first part")
            only(fl, st, ins, r, ("unfinished_expected",), bad)
        if not closed:
            ctx.ok("%s: output stays open" % ins.where())


class Op(Sym):
    def known(self, fl, st, ins, args, c):
        if "DebugStack" in c:
            m = c.rsplit("::", 1)[1]
            self.event(st, m, args[0], tuple(args[1:]), ("o", m + str(len(self.events(st)))))
            return ("val", self.events(st)[-1][3]) if m in ("top", "size") else ("pure",)
        return None


def operators(ctx):
    prog = inl(dump=[r"^libcwd::(ChannelSet|ChannelSetBootstrap)::operator\|$"], noinline=[r"DebugStack"])
    B = "libcwd::ChannelSetData"
    o = lambda cls, m: prog.offset(cls, m)
    done = set()
    for fn in prog.match(r"^libcwd::(ChannelSet|ChannelSetBootstrap)::operator\|$"):
        kind = "cf" if "continued_cf_nt" in fn.dem else "chan" if "ContinuedChannel const" in fn.dem else None
        if kind is None:
            continue
        done.add(kind)
        ctx.analysed(fn)
        ctx.count("operator|", 1 if kind == "cf" else 2)
        r = Op(ctx)
        fl = analyse(fn, r)
        bad = lambda ins, msg: ctx.violation("operator|%s|%s" % (kind, msg.split(" (")[0]), "operator|(%s) %s" % ("continued_cf" if kind == "cf" else "dc::continued/dc::finish", msg), ins.where())
        cs = ("a", 0)
        at = lambda m: fl.mk_add(cs, o(B, m))
        ts = ("m0", at("debug_object_tsd_ptr"))
        oc = fl.mk_add(ts, o(DOTSD, "off_count"))
        OC = ("m0", oc)
        cstack = fl.mk_add(ts, o(DOTSD, "continued_stack"))
        if r.ends or not r.rets:
            bad(next(fn.instrs()), "does not return")
        for st, ins, val in r.rets:
            ev = r.events(st)
            ch = r.changed(fl, st)
            if val != cs:
                bad(ins, "does not return the channel set")
            if kind == "cf":
                ON = ("m0", at("on"))
                x = st.mem.get(at("mask"))
                if x is None or not all(fl.evalterm(x, {("m0", at("mask")): v}) == v | BIT["continued_cf"] for v in (0, 1, BIT["continued_cf"], 0x3c)):
                    bad(ins, "does not add exactly the continued_cf bit (%r)" % (x,))
                for on in (0, 1):
                    if not fl.consistent(st, {ON: on}):
                        continue
                    if on:
                        if [e[:3] for e in ev] != [("push", cstack, (OC,))] or fl.const_of(st, st.mem.get(oc, OC)) != 0:
                            bad(ins, "does not push off_count and set it to zero when the channel is on")
                        else:
                            ctx.ok("continued_cf on: off_count pushed and zeroed")
                    else:
                        if ev or st.mem.get(oc) != fl.mk_add(OC, 1):
                            bad(ins, "does not count a start that is switched off")
                        else:
                            ctx.ok("continued_cf off: ++off_count")
                extra = set(ch) - {at("mask"), oc}
            else:
                mb = ("m0", fl.mk_add(("a", 1), o(P, "maskbit_")))
                cur = ("m0", fl.mk_add(ts, o(DOTSD, "current")))
                ma = fl.mk_add(cur, o("libcwd::OutputState", "mask"))
                la = fl.mk_add(cur, o("libcwd::OutputState", "label"))
                for off in (0, 1, 2, 7):
                    for bit in ("continued", "finish"):
                        env = {OC: off, mb: BIT[bit]}
                        if not fl.consistent(st, env):
                            continue
                        ctx.count("combinations of off_count and marker")
                        on = fl.evalterm(st.mem.get(at("on"), ("c", 99)), env)
                        if on is None or on & 1 != (off == 0) or on > 1:
                            bad(ins, "is %s for off_count %d" % (on, off))
                            continue
                        if off:
                            want = (off - 1) if bit == "finish" else off
                            x = fl.evalterm(st.mem.get(oc, OC), env)
                            if x != want:
                                bad(ins, "makes off_count %s instead of %d for dc::%s" % (x, want, bit))
                            if ev or ma in ch:
                                bad(ins, "touches the current output for a suppressed dc::%s" % bit)
                            ctx.ok("dc::%s with off_count %d is suppressed" % (bit, off))
                            continue
                        m = st.mem.get(ma)
                        for old in (0, 0x400, 0x8c1):
                            x = fl.evalterm(m, dict(env, **{}) | {("m0", ma): old}) if m is not None else None
                            if x != old | BIT[bit]:
                                bad(ins, "does not add the marker bit of dc::%s to the current output (%r)" % (bit, m))
                            y = st.mem.get(at("mask"))
                            if y is None or fl.evalterm(y, env | {("m0", ma): old}) != old | BIT[bit]:
                                bad(ins, "does not take over the flags of the continued output (%r)" % (y,))
                        if st.mem.get(at("label")) != ("m0", la):
                            bad(ins, "does not take over the label of the continued output (%r)" % (st.mem.get(at("label")),))
                        if bit == "finish":
                            names = [e[0] for e in ev]
                            if names != ["top", "pop"] or any(e[1] != cstack for e in ev) or st.mem.get(oc) != ev[0][3]:
                                bad(ins, "does not restore off_count from the stack and pop it once for dc::finish (%s)" % names)
                            else:
                                ctx.ok("dc::finish: off_count restored and popped")
                        else:
                            if [e for e in ev if e[0] in ("pop", "push")] or fl.evalterm(st.mem.get(oc, OC), env) != 0:
                                bad(ins, "changes the nesting for dc::continued")
                            else:
                                ctx.ok("dc::continued: nesting unchanged")
                extra = set(ch) - {at("mask"), at("label"), at("on"), oc, ma}
            for a in extra:
                bad(ins, "also changes %s" % (fl.fldof.get(a, a),))
    if done != {"cf", "chan"}:
        raise Broken("anchor vanished: operator| for continued output (%s)" % done)
