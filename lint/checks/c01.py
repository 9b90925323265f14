"""Path-sensitive symbolic summaries of the debug output macros as a user expands them (witness/dout.cc: one,
two and three channels, flags in between, always and fatal channels, continued by the Dout/DoutFatal/
DoutEntering/__Dout wrappers).  On every path the per-thread counters of the object and of each named channel
are intervals; for each combination of 'on' (negative) and 'off' that the path admits, the sequence
start - operand - finish must occur exactly once when object and some channel are on and not at all otherwise.
At start() the label handed over must be that of the leftmost channel that is on and the mask, bit by bit, the
OR of the named flags."""
from core import *
from sym import *

FLOORS = {"statements": 14, "switch combinations": 60, "started outputs": 20}
NEG = ((1 << 31, (1 << 32) - 1),)
POS = ((0, (1 << 31) - 1),)
# witness -> argument roles: o object, x/y/z channels in order, a always channel, z fatal, f flags
FORMS = {
    "w_one": "ox", "w_one_flag": "oxf", "w_one_flags": "oxff", "w_two": "oxx", "w_two_flags": "oxxff", "w_three": "oxxx",
    "w_always": "oaf", "w_always_chan": "oax", "w_chan_fatal": "oxZ", "w_fatal": "oZ", "w_fatal_flag": "oZf",
    "w_Dout": "xf", "w_DoutFatal": "Zf", "w_DoutEntering": "xf", "w_library": "xf"}
SEQ = ("start", "operand", "finish")


class D(Sym):
    pure = (r"^std::", r"^operator<<")

    def known(self, fl, st, ins, args, c):
        if c.endswith("ThreadSpecificData::instance"):
            return ("val", ("o", "tsd"))
        m = re.search(r"DebugObject_ThreadSpecificData::(start|finish|fatal_finish)$", c)
        if m:
            cs = [a for a in args if fl.root(a)[0] == "al"]
            snap = None
            if cs and m.group(1) == "start":
                snap = (st.mem.get(fl.mk_add(cs[0], self.off_label)), st.mem.get(fl.mk_add(cs[0], self.off_mask)))
            self.event(st, m.group(1), tuple(args), snap)
            self.ctx.count("calls of start/finish")
            return None
        if c == "w_operand":
            self.event(st, "operand")
            return None
        if "Indent::" in c:
            return ("pure",)
        return None


def run(ctx):
    prog = inl(dump=[r"^w_"], witnesses=["dout.cc"],
               noinline=[r"^libcwd::DebugObject_ThreadSpecificData::(start|finish|fatal_finish)$", r"ThreadSpecificData::instance$", r"^libcwd::Indent::"])
    for name, roles in FORMS.items():
        fn = prog.one(name)
        ctx.count("statements")
        ctx.analysed(fn)
        r = D(ctx)
        r.off_label = prog.offset("libcwd::ChannelSetData", "label")
        r.off_mask = prog.offset("libcwd::ChannelSetData", "mask")
        fl = analyse(fn, r)
        statement(ctx, prog, fn, fl, r, roles)


def statement(ctx, prog, fn, fl, r, roles):
    tsd = ("o", "tsd")
    P = "libcwd::_private_::ThreadSpecificData"
    idx = lambda field, a, cls, member, w: fl.mk_idx(tsd, prog.offset(P, field), [(("m0", fl.mk_add(a, prog.offset(cls, member))), w)])
    if "o" in roles:
        obj = ("a", 0)
    else:
        obj = [("g", g) for g, d in prog.globals.items() if d.get("dem") == "libcwd::libcw_do"]
        if not obj:
            raise Broken("anchor vanished: libcwd::libcw_do")
        obj = obj[0]
    objoff = ("m0", idx("debug_object_off_array", obj, "libcwd::DebugObject", "index_", 4))
    fatal = "Fatal" in fn.base or fn.base.startswith("w_fatal")
    chans, flags = [], []
    k = 0
    for c in roles:
        a = ("a", k)
        k += 1
        if c == "x":
            chans.append((a, ("m0", idx("off_cnt_array", a, "libcwd::Channel", "index_", 4)), fl.mk_add(a, prog.offset("libcwd::Channel", "label_"))))
        elif c == "a":
            chans.append((a, None, "always"))
        elif c == "Z":
            chans.append((a, None, fl.mk_add(a, prog.offset("libcwd::FatalChannel", "label_"))))
            flags.append(("m0", fl.mk_add(a, prog.offset("libcwd::FatalChannel", "maskbit_"))))
        elif c == "f":
            flags.append(a)
    ends = [(st, ins) for st, ins, v in r.rets] + r.ends
    if not ends:
        raise Broken("%s has no end" % fn.base)
    import itertools
    for st, ins in ends:
        ev = [e for e in r.events(st) if e[0] in ("start", "operand", "finish", "fatal_finish")]
        names = tuple(e[0] for e in ev)
        switches = [t for t in ([] if fatal else [objoff]) + [c[1] for c in chans if c[1] is not None]]
        choices = []
        for t in switches:
            f = fl.possible(st, t, 32)
            choices.append([b for b, s in ((True, NEG), (False, POS)) if inter(f, s)])
        for combo in itertools.product(*choices):
            ctx.count("switch combinations")
            on = dict(zip(switches, combo))
            first = [c for c in chans if c[1] is None or on[c[1]]]
            want = (fatal or on[objoff]) and bool(first)
            exp = (("start", "operand", "fatal_finish" if fatal else "finish") if want else ())
            desc = ", ".join(["object %s" % ("on" if on.get(objoff) else "off")] * (not fatal) +
                             ["channel %d %s" % (j, "on" if c[1] is None or on[c[1]] else "off") for j, c in enumerate(chans)])
            if names != exp:
                ctx.violation("eval|" + fn.base, "%s with %s: performs %s instead of %s" % (fn.base, desc, list(names), list(exp)), ins.where(), st_path(st))
                continue
            ctx.ok("%s with %s: %s" % (fn.base, desc, list(names)))
            if not want:
                continue
            ctx.count("started outputs")
            args, (label, mask) = ev[0][1], ev[0][2]
            lab = first[0][2]
            okl = label == lab or (lab == "always" and label is not None and label[0] == "g" and "AlwaysChannel" in prog.globals.get(label[1], {}).get("dem", ""))
            if not okl:
                ctx.violation("label|" + fn.base, "%s with %s: the label handed to start() is not that of the leftmost channel that is on (%r)" % (fn.base, desc, label), ins.where())
            fs = list(flags)
            okm = mask is not None and ((not fs and mask == C(0)) or (fs and bitwise(fl, mask, tuple(fs), lambda *b: __import__("functools").reduce(lambda x, y: x | y, b))))
            if not okm:
                ctx.violation("mask|" + fn.base, "%s with %s: the control flags handed to start() are not exactly those named (%r)" % (fn.base, desc, mask), ins.where())
            if okl and okm:
                ctx.ok("%s with %s: label and flags" % (fn.base, desc))
            for e in ev:
                if e[0] != "operand" and obj not in e[1]:
                    ctx.violation("object|" + fn.base, "%s: %s is called for another debug object" % (fn.base, e[0]), ins.where())
            this = ("m0", idx("debug_object_array", obj, "libcwd::DebugObject", "index_", 8))
            if args[0] != this:
                ctx.violation("object|" + fn.base, "%s: start() is called on %r" % (fn.base, args[0]), ins.where())


def st_path(st):
    from check import fmt_path
    return fmt_path(st.path())
