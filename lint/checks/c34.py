"""Token sequences along every symbolic path of start() and finish().  Every write to the stream of the line is a
token (color, margin, label, marker, indentation, blanks of the same width, constant text, end of line).  For each
admissible combination of the control flags noprefix, nolabel, blank_margin, blank_label, blank_marker, error,
nonewline (and the conditions on color lengths on the path) the token sequence must be exactly the documented one; a
token may be missing only where the path knows its length to be zero.  An interrupted continued output is first
written as unfinished, cut back to its prefix and continued with '<continued> '.  write_whitespace_to puts one blank per
step of a loop that is left after exactly 'size' steps (induction on the loop)."""
from output import *
from flow import full, inter

FLOORS = {"prefix combinations": 32, "line ends": 4, "interruptions": 2, "blank loops": 1}


class Lay(Out):
    pass


def parts(prog, r, fl):
    d = {}
    so, zo = prog.offset("libcwd::DebugString", "str_"), prog.offset("libcwd::DebugString", "size_")
    for n in ("color_on", "color_off", "margin", "marker"):
        a = r.f(fl, n)
        d[n] = (("m0", fl.mk_add(a, so)), ("m0", fl.mk_add(a, zo)))
    d["label"] = (("m0", fl.mk_add(r.cs, prog.offset("libcwd::ChannelSetData", "label"))), None)
    return d


def strip(t):
    while t and t[0] in ("zext", "sext", "trunc"):
        t = t[2]
    return t


def is_maxlen(prog, t):
    t = strip(t)
    return t is not None and t[0] == "m0" and t[1][0] == "g" and prog.globals.get(t[1][1], {}).get("dem", "").endswith("WST_max_len")


def token(ctx, prog, r, fl, st, e, P):
    """event -> token name"""
    kind, args = e[2], e[3]
    if kind == "write":
        for n in ("color_on", "color_off", "margin", "marker"):
            if args[0] == P[n][0] and strip(args[1]) == P[n][1]:
                return n
        if args[0] == P["label"][0] and is_maxlen(prog, args[1]):
            return "label"
        if args[0][0] == "g" and args[0][1] in r.strings and fl.const_of(st, args[1]) is not None:
            return "'" + r.strings[args[0][1]][:fl.const_of(st, args[1])] + "'"
        return "write%r" % (args,)
    if kind == "blank":
        t = strip(args[0])
        for n in ("margin", "marker"):
            if t == P[n][1]:
                return "blank " + n
        if is_maxlen(prog, t):
            return "blank label"
        i0 = ("m0", r.f(fl, "indent"))
        if t == strip(st.mem.get(r.f(fl, "indent"), i0)):
            return "indent"
        return "blank%r" % (args,)
    if kind == "put" or (kind == "<<" and fl.const_of(st, args[0]) is not None):
        c = fl.const_of(st, args[0])
        return "'" + chr(c & 255) + "'" if c is not None else "put%r" % (args,)
    if kind == "<<":
        a = args[0]
        if a[0] == "g" and a[1] in r.strings:
            return "'" + r.strings[a[1]].rstrip("\0") + "'"
        if a[0] == "f":
            return None       # a manipulator
        return "value"
    return None


def zero(fl, st, t):
    return fl.const_of(st, t) == 0


def matches(fl, st, got, want, P):
    """got == want up to tokens known to be empty; want elements may be 'x?' (absent if length is zero)"""
    g = list(got)
    for w in want:
        if g and g[0] == w:
            g.pop(0)
            continue
        n = w.split(" ")[-1]
        if n in P and P[n][1] is not None and zero(fl, st, P[n][1]):
            continue
        return False
    return not g


def run(ctx):
    prog, s = summaries(ctx)
    start(ctx, prog, *s["start"])
    finish(ctx, prog, *s["finish"])
    blanks(ctx)
    stream(ctx)
    prefix(ctx)


def start(ctx, prog, fn, r, fl):
    bad = lambda ins, msg: ctx.violation("start|" + msg.split(" (")[0], "start() " + msg, ins.where())
    SPECIAL = BIT["continued"] | BIT["finish"]
    PRE = BIT["noprefix"] | BIT["nolabel"] | BIT["blank_margin"] | BIT["blank_label"] | BIT["blank_marker"]
    P = parts(prog, r, fl)
    UE = ("m0", r.f(fl, "unfinished_expected"))
    done = {}
    for st, ins, val in r.rets:
        cur = st.mem.get(r.f(fl, "current"))
        if cur is None or cur[0] != "o":
            continue
        nb = r.os_(fl, cur, "bufferstream")
        ev = r.events(st)
        toks = [token(ctx, prog, r, fl, st, e, P) for e in ev if e[0] == "os" and e[1] == nb]
        toks = tuple(t for t in toks if t is not None)
        key = (toks, tuple(sorted((str(t), f) for t, f in st.facts.items() if mentions(t, r.S) or any(P[n][1] and mentions(t, P[n][1]) for n in P))))
        if key not in done:
            done[key] = True
            m0 = models(fl, st, r.M0, BIT["cerr"])[:1]
            for v in models(fl, st, r.S, SPECIAL | PRE, {r.M0: m0[0]} if m0 else None):
                if v & SPECIAL:
                    continue
                ctx.count("prefix combinations")
                want = ["color_on"]
                if not v & BIT["noprefix"]:
                    want.append("blank margin" if v & BIT["blank_margin"] else "margin")
                    if not v & BIT["nolabel"]:
                        want.append("blank label" if v & BIT["blank_label"] else "label")
                        want.append("blank marker" if v & BIT["blank_marker"] else "marker")
                        want.append("indent")
                if not matches(fl, st, toks, want, P):
                    names = [n for n in ("noprefix", "nolabel", "blank_margin", "blank_label", "blank_marker") if v & BIT[n]]
                    bad(ins, "with flags %s writes %s instead of %s" % ("+".join(names) or "none", list(toks), want))
                else:
                    ctx.ok("start() with prefix flags %#x: %s" % (v & PRE, list(toks)))
        # the interrupted output
        wr = [k for k, e in enumerate(ev) if e[0] == "buffer" and e[1] == "writeto"]
        for m in models(fl, st, r.M0, BIT["continued_cf"]):
            for u in (0, 1):
                if not fl.consistent(st, {r.M0: m, UE: u}):
                    continue
                want = bool(m & BIT["continued_cf"]) and u == 1
                if bool(wr) != want:
                    bad(ins, "%s the interrupted output" % ("does not write out" if want else "writes out"))
                    continue
                if not want:
                    if [e for e in ev if e[0] == "os" and e[1] == r.bs0 or e[0] == "buffer" and e[1] in ("restore_position", "continued")]:
                        bad(ins, "changes the interrupted output that is not unfinished")
                    continue
                ctx.count("interruptions")
                buf = r.os_(fl, r.cur0, "buffer")
                e = ev[wr[0]]
                a = e[2]
                if len(wr) != 1 or a[0] != buf or a[4] != C(1) or a[6] != C(1) or a[7] != C(0):
                    bad(ins, "does not write the interrupted output as unfinished (%r)" % (a[4:],))
                seq = [x[1] for x in ev if x[0] == "buffer" and x[2][0] == buf]
                if seq != ["writeto", "restore_position", "continued"]:
                    bad(ins, "does not cut the interrupted output back to its prefix after writing it (%s)" % seq)
                    continue
                k = [j for j, x in enumerate(ev) if x[0] == "buffer" and x[1] == "restore_position"][0]
                if [x for x in ev[:k] if x[0] == "os" and x[1] == r.bs0]:
                    bad(ins, "adds to the interrupted output before cutting it back")
                tk = [token(ctx, prog, r, fl, st, x, P) for x in ev if x[0] == "os" and x[1] == r.bs0]
                con = zero(fl, st, P["color_on"][1])
                txt = "".join(t[1:-1] if t[0] == "'" else "{%s}" % t for t in tk if t)
                want = ("" if zero(fl, st, P["color_off"][1]) else "{color_off}") + ("<continued> " if con else "<continued>{color_on} ")
                if txt != want:
                    bad(ins, "continues the interrupted output with %s instead of %s" % (txt, want))
                else:
                    ctx.ok("%s: interrupted output continued with %s" % (ins.where(), txt))


def finish(ctx, prog, fn, r, fl):
    bad = lambda ins, msg: ctx.violation("finish|" + msg.split(" (")[0], "finish() " + msg, ins.where())
    P = parts(prog, r, fl)
    FLO = ("m0", fl.mk_add(r.obj, prog.offset("libcwd::DebugObject", "always_flush_")))
    INT = ("m0", fl.mk_add(r.obj, prog.offset("libcwd::DebugObject", "interactive_")))
    RF = ("m0", fl.mk_add(r.tsd, prog.offset(TSD, "recursive_fatal")))
    for st, ins in [(x[0], x[1]) for x in r.rets + r.ends]:
        ev = r.events(st)
        wr = [k for k, e in enumerate(ev) if e[0] == "buffer" and e[1] == "writeto"]
        tk = [token(ctx, prog, r, fl, st, e, P) for e in ev if e[0] == "os" and e[1] == r.bs0]
        tk = [t for t in tk if t]
        for m in models(fl, st, r.M0, BIT["error"] | BIT["nonewline"] | BIT["cerr"] | BIT["continued_cf"] | BIT["finish"]):
            stays = bool(m & BIT["continued_cf"]) and not m & BIT["finish"]
            want = []
            if not stays:
                if m & BIT["error"]:
                    want += ["': '", "value", "' ('", "value", "')'"]
                if not m & BIT["nonewline"]:
                    want += ["color_off", "'\n'"]
            ctx.count("line ends")
            if not matches(fl, st, tk, want, P):
                bad(ins, "ends the line with %s instead of %s for flags %s" % (tk, want, [n for n in BIT if m & BIT[n]]))
                continue
            if [e for k, e in enumerate(ev) if e[0] == "os" and e[1] == r.bs0 and wr and k > wr[0] and not (e[2] or "").startswith("~")]:
                bad(ins, "adds to the line after it was written")
            if wr:
                a = ev[wr[0]][2]
                iscerr = a[1][0] == "g" and prog.globals.get(a[1][1], {}).get("dem") == "std::cerr" or a[1] == ("g", "_ZSt4cerr")
                if bool(m & BIT["cerr"]) != iscerr or not (iscerr or fl.const_of(st, a[1]) == 0):
                    bad(ins, "writes to the wrong stream for cerr_cf %s" % bool(m & BIT["cerr"]))
                env = {r.M0: m}
                nl = fl.evalterm(a[6], env)
                if nl is None or bool(nl & 1) != (not stays and not m & BIT["nonewline"]):
                    bad(ins, "reports that the line %s a newline while it %s" % (("ends on", "does not") if nl else ("does not end on", "does")))
                pn = fl.evalterm(a[7], env)
                if pn is None or bool(pn & 1) == stays:
                    bad(ins, "reports a wrong reason for a missing newline")
                if a[4] != C(0):
                    bad(ins, "requests <unfinished> for a finished line")
                if not m & (BIT["fatal"] | BIT["core"]):
                    for af in (0, 1):
                        for iv in (0, 1):
                            env = {r.M0: m, FLO: af, INT: iv}
                            if not fl.consistent(st, env):
                                continue
                            x = fl.evalterm(a[5], env)
                            if m & BIT["wait"] and not stays:
                                w = iv
                            else:
                                w = 1 if af or m & BIT["flush"] else 0
                            if x is None or x & 1 != w:
                                bad(ins, "%s the stream for flags %s" % ("flushes" if x else "does not flush", [n for n in BIT if m & BIT[n]]))
            elif not stays:
                bad(ins, "does not write the line")
            else:
                for af in (0, 1):
                    if fl.consistent(st, {r.M0: m, FLO: af}) and (af or m & BIT["flush"]):
                        bad(ins, "does not write an open output that has to be flushed")
            ctx.ok("finish() with flags %#x: %s" % (m, tk))


def blanks(ctx):
    prog = inl(dump=[r"write_whitespace_to"], noinline=[r"write_whitespace_to"])
    fns = prog.match(r"write_whitespace_to$")
    if not fns:
        raise Broken("anchor vanished: write_whitespace_to")
    for fn in fns:
        r = W(ctx)
        fl = analyse(fn, r)
        ctx.analysed(fn)
        ctx.count("blank loops")
        ctx.from_flow(fl, "C34")


class W(Rule):
    affine = 5
    max_states = 4000

    def __init__(self, ctx):
        self.ctx = ctx

    def start(self, fl, st):
        st.p = 0

    def keep(self, fl, t):
        return True

    def keep_mem(self, fl, a, f):
        return True

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if re.search(r"basic_string<.*>::basic_string", c) and len(args) >= 3 and strip(args[1]) == ("a", 1) and fl.const_of(st, args[2]) == 32:
            self.whole = args[0]
        elif "operator<<" in c and args[1] == getattr(self, "whole", None):
            st.p = "size"
        elif c.startswith("std::") and not re.search(r"::put$|operator<<|::write$|basic_string|allocator", c):
            raise Broken("write_whitespace_to uses %s" % c)
        elif c.endswith("::put") or "operator<<" in c:
            if fl.const_of(st, args[1]) != 32:
                fl.violate(st, ins, "writes something else than a blank")
            st.p = min(st.p + 1, 9)
        elif c.endswith("::write") and args[1][0] == "g":
            n = fl.const_of(st, args[2])
            if n is None:
                raise Broken("write_whitespace_to writes a run of unknown length")
            st.p = min(st.p + n, 9)
        return None

    def modifies(self, fl, st, ins, args):
        return []

    def ret(self, fl, st, ins, val):
        if st.p == "size" or st.p >= 5:
            return
        k = fl.const_of(st, ("a", 1))
        self.ctx.count("blank loop exits")
        if k != st.p:
            fl.violate(st, ins, "write_whitespace_to is left after %d blanks for size %s" % (st.p, fl.possible(st, ("a", 1), 32)[:3]))
        else:
            self.ctx.ok("size %d: %d blanks" % (k, st.p))


# ---------------------------------------------------------------- what goes to the stream

BUF = "libcwd::Buffer"
OSM, LEN = ("o", "os"), ("o", "len")


def wide(t):
    while t and t[0] in ("zext", "sext"):
        t = t[2]
    return t


class Wto(Sym):
    """Buffer::writeto(os, tsd, debug_object, request_unfinished, do_flush, ends_on_newline, possible_nonewline)"""
    max_states = 200000

    def __init__(self, prog, ctx):
        Sym.__init__(self, ctx)
        self.prog = prog

    def start(self, fl, st):
        Sym.start(self, fl, st)
        self.this, self.tsd, self.obj = ("a", 0), ("a", 2), ("a", 3)
        self.index = ("m0", fl.mk_add(self.obj, self.prog.offset("libcwd::DebugObject", "index_")))
        fl.wd[LEN] = 32
        fl.restrict(st, LEN, ((0, 0x7fffffff),), 32)
        self.U = ("m0", fl.mk_add(self.obj, self.prog.offset("libcwd::DebugObject", "unfinished_oss_")))
        self.N = ("m0", fl.mk_add(self.obj, self.prog.offset("libcwd::DebugObject", "newlineless_tsd_")))
        self.data = {}
        for who, base in (("own", self.tsd), ("other", self.N)):
            d = ("m0", fl.mk_idx(base, self.prog.offset(TSD, "debug_object_array"), [(self.index, 8)]))
            for n in ("color_on", "color_off"):
                a = fl.mk_add(d, self.prog.offset(DOTSD, n))
                self.data[who, n] = [("m0", fl.mk_add(a, self.prog.offset("libcwd::DebugString", x))) for x in ("str_", "size_")]
        self.strings = {}

        def scan(v):
            if isinstance(v, dict):
                if "g" in v and "s" in v:
                    self.strings[v["g"]] = v["s"]
                for x in v.values():
                    scan(x)
            elif isinstance(v, list):
                for x in v:
                    scan(x)
        for i in fl.fn.instrs():
            scan(i.d)

    def initial(self, fl, st, a, f):
        # another buffer is not this one when the path compared them
        if fl.root(a) == self.this and fl.decide(st, fl.mk_icmp("eq", self.U, self.this, 64)) is False:
            stores, epoch, ev = st.p
            return epoch <= 6 and not any(fl.root(s) != self.U and fl.may_alias(s, fl.fldof.get(s), a, f) for s in stores)
        return Sym.initial(self, fl, st, a, f)

    def store(self, fl, st, ins, a, v, f):
        if fl.root(a) == self.U:
            self.event(st, "told", a, fl.const_of(st, v))
        return Sym.store(self, fl, st, ins, a, v, f)

    def known(self, fl, st, ins, args, c):
        if c.endswith("::fatal_finish") or c.endswith("::assert_fail"):
            st.dead = True
            return ("pure",)
        if c.endswith("pubseekoff"):
            return ("pure",)
        if c.endswith("::sgetn"):
            self.event(st, "got", args[1], wide(args[2]))
            return ("pure",)
        if c.endswith("get_locked_os"):
            return ("val", OSM)
        if c.endswith("write_prefix_to"):
            if args[0] == self.this and args[1] == OSM:
                self.event(st, "tok", "prefix")
            else:
                self.event(st, "tok", "prefix of something else")
            return ("pure",)
        if re.search(r"^std::.*ostream", c) or c.startswith("std::operator<<") or c.startswith("std::flush"):
            k = "<<" if "operator<<" in c else c.rsplit("::", 1)[1]
            if args[0] != OSM:
                return ("val", args[0])
            if k == "flush":
                self.event(st, "flush")
            else:
                self.event(st, "tok", self.token(fl, st, k, args))
            return ("val", args[0])
        if c.endswith("::unlock") or c.startswith("virtual "):
            return ("pure",)
        if c.startswith(("std::", "operator ", "malloc", "free", "llvm.", "libcwd::DebugObject_ThreadSpecificData::start")) or c.endswith("::instance"):
            return ("pure",)
        return None

    def token(self, fl, st, k, args):
        if k == "write":
            for (who, n), (a, z) in self.data.items():
                if args[1] == a and strip(args[2]) == z:
                    return who + " " + n
            n = fl.const_of(st, args[2])
            if args[1][0] == "g" and args[1][1] in self.strings and n is not None:
                return "'" + self.strings[args[1][1]][:n] + "'"
            for e in self.events(st):
                if e[0] == "got" and e[1] == args[1] and e[2] == wide(args[2]):
                    return "text"
        if k in ("put", "<<"):
            n = fl.const_of(st, args[1])
            if n is not None:
                return "'" + chr(n & 255) + "'"
            if args[1][0] == "g" and args[1][1] in self.strings:
                return "'" + self.strings[args[1][1]].rstrip("\0") + "'"
        return "something else"


def truth(fl, st, t, w):
    q = fl.possible(st, t, w)
    return (False,) if q == ((0, 0),) else (True,) if q and q[0][0] > 0 else (True, False)


def joined(tk):
    out = []
    for t in tk:
        if t.startswith("'") and out and out[-1].startswith("'"):
            out[-1] = out[-1][:-1] + t[1:]
        else:
            out.append(t)
    return out


def stream(ctx):
    prog = inl(dump=[r"^libcwd::Buffer::writeto$"], noinline=[r"OstreamState::", r"Buffer::write_prefix_to$", r"DebugObject_ThreadSpecificData::(start|finish|fatal_finish)$",
                                                              r"ThreadSpecificData::instance$", r"^std::operator<<"])
    fn = prog.one(BUF + "::writeto")
    ctx.analysed(fn)
    r = Wto(prog, ctx)
    fl = analyse(fn, r, 400000)
    o = prog.offset
    A = lambda n: fl.mk_add(("a", 0), o(BUF, n))
    bad = lambda ins, msg: ctx.violation("writeto|" + msg.split(" (")[0], "writeto() " + msg, ins.where())
    UAP, CN = A("unfinished_already_printed_"), A("continued_needed_")
    UA, NA = fl.mk_add(r.obj, o("libcwd::DebugObject", "unfinished_oss_")), fl.mk_add(r.obj, o("libcwd::DebugObject", "newlineless_tsd_"))
    for st, ins, val in r.rets:
        ctx.count("ways to write to the stream")
        ev = r.events(st)
        tk = [e[1] for e in ev if e[0] == "tok"]
        got = [e for e in ev if e[0] == "got"]
        if len(got) != 1:
            bad(ins, "does not take the text once from the buffer")
            continue
        L = got[0][2]
        eq = lambda a, b: {None: (True, False), True: (True,), False: (False,)}[fl.decide(st, fl.mk_icmp("eq", a, b, 64))]
        two = lambda a: {None: (True, False), True: (True,), False: (False,)}[fl.decide(st, a)]
        some = two(fl.mk_icmp("sgt", L, C(0), 32))
        cn, up = truth(fl, st, ("m0", CN), 8), truth(fl, st, ("m0", UAP), 8)
        empty = {}
        for k, (a, z) in r.data.items():
            empty[k] = truth(fl, st, z, 64) == (False,)
        for n0 in eq(r.N, C(0)):
            for nt in ((False,) if n0 else eq(r.N, r.tsd)):
                for u0 in eq(r.U, C(0)):
                    for ut in ((False,) if u0 else eq(r.U, r.this)):
                        for l in some:
                            for c in cn:
                                for u in up:
                                    for (q, e, p, f) in [(q, e, p, f) for q in truth(fl, st, ("a", 4), 1) for e in truth(fl, st, ("a", 6), 1) for p in truth(fl, st, ("a", 7), 1)
                                                         for f in truth(fl, st, ("a", 5), 1)]:
                                        m = judge(fl, st, r, tk, ev, n0, nt, u0, ut, l, c, u, q, e, p, f, empty, UAP, CN, UA, NA, o)
                                        if m:
                                            bad(ins, m)
                                        ctx.count("situations")
    ctx.ok("writeto(): %d paths" % len(r.rets))


def judge(fl, st, r, tk, ev, n0, nt, u0, ut, l, c, u, q, e, p, f, empty, UAP, CN, UA, NA, o):
    want = []
    others = not n0 and not nt
    if others:
        want.append("other color_off")
        if u0:
            want.append("'<no newline>\n'")
        elif not ut:
            want.append("'<unfinished>\n'")
    again = c and l
    if again:
        want += ["prefix", "own color_off", "'<continued>'", "own color_on", "' '"]
        u = False
    want.append("text")
    if q and not u:
        want += ["own color_off", "'<unfinished>\n'"]
    # parts that are empty may be missing, and nothing else
    w = [x for x in want if x in tk or not (x.split(" ")[0] in ("own", "other") and empty[tuple(x.split(" "))])]
    if not l and "text" not in tk:
        w.remove("text")
    if joined(tk) != joined(w):
        return "writes %s instead of %s (line of another thread: %s, unfinished: %s, to be continued: %s)" % (tk, w, others, not u0 and not ut, again)
    if ("flush",) in ev and not f or f and ("flush",) not in ev:
        return "flushes the stream although it should not" if not f else "does not flush the stream"

    def final(a, want, w, what):
        v = st.mem.get(a)
        if v is None:
            v = ("m0", a)
        if want is None:
            want = ("m0", a)
        if v == want or strip(v) == strip(want):
            return None
        q = fl.possible(st, v, w)
        if want[0] == "c" and q == ((want[1], want[1]),) or want[0] == "c" and want[1] and w == 8 and q and q[0][0] > 0 or fl.possible(st, want, w) == q and len(q) == 1 and q[0][0] == q[0][1]:
            return None
        return what
    m = final(UAP, C(1 if e else 0), 8, "does not remember whether the line was ended")
    if not m:
        m = final(UA, C(0) if e or l and p else r.this if l else None, 64, "does not remember which line is unfinished")
    if not m:
        m = final(NA, C(0) if e else r.tsd if l else None, 64, "does not remember whose line has no end")
    if not m and c:
        m = final(CN, C(0) if again else C(1), 8, "does not remember whether the line has to be continued")
    if not m and others and not u0 and not ut:
        for x in ("unfinished_already_printed_", "continued_needed_"):
            told = [e[2] for e in ev if e[0] == "told" and e[1] == fl.mk_add(r.U, o(BUF, x))]
            if not told or told[-1] != 1:
                m = m or "does not tell the interrupted line that it was ended"
    return m


SIZE = ("o", "prefix size")


class Pre(W):
    """write_prefix_to: one character for each of the prefix, from the start of the buffer on"""
    def start(self, fl, st):
        st.p = 0
        fl.wd[SIZE] = 64
        fl.restrict(st, SIZE, ((0, 0x7fffffff),), 64)

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if re.search(r"std::fpos<.*>::operator-|operator-.*fpos", c):
            return ("val", SIZE)
        if re.search(r"ostream<.*>::put$|ostream::put$", c):
            st.p = min(st.p + 1, 9)
        return ("pure",)

    def ret(self, fl, st, ins, val):
        if st.p >= 5:
            return
        self.ctx.count("prefix loop exits")
        k = inter(fl.possible(st, SIZE, 64), fl.possible(st, ("trunc", 32, SIZE), 32))
        if k != ((st.p, st.p),):
            fl.violate(st, ins, "write_prefix_to writes %d characters for a prefix of size %s" % (st.p, k[:3]))
        else:
            self.ctx.ok("prefix of %d characters" % st.p)


def prefix(ctx):
    prog = inl(dump=[r"^libcwd::Buffer::write_prefix_to$"], noinline=[r"^std::fpos", r"^std::operator-"])
    fn = prog.one(BUF + "::write_prefix_to")
    ctx.analysed(fn)
    fl = analyse(fn, Pre(ctx))
    ctx.from_flow(fl, "C34")
