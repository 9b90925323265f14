"""Reading a configuration file, line by line.

read() is followed on every path with the text of the lines unknown: every comparison of the keyword or value with a
constant, every search for the equal sign and every state that a channel may be in goes both ways.  For each line what it did is
compared with what its keyword says and nothing else; a malformed line may only end in a fatal report, channels_toggle is
processed only after a channels_default, an unknown keyword only warns, with the warning channel forced on and restored.
The message channel's state is tracked over all lines: it is on when it is restored, once.
process_channel() and what the defaults do to every channel are followed with every action and state: a channel is turned
on until it is on, or off once, exactly when it matches, the action says so and it is not so yet; ELFUTILS, which is switched on at the end,
likewise by what is remembered for it.  The search for the file returns only names it found readable.
The text itself is followed as slices between symbolic positions that stand for every text: a keyword is what is before the equal
sign and white space, its value what is behind the equal sign without white space around it, comments and empty lines are
not looked at; process_channels() processes every mask of the list once, in order, whole, in upper case, and restores the indentation."""
from core import *
from flow import Rule, analyse, C, width
from demangle import strings

FLOORS = {"keywords": 7, "lines": 12, "paths": 20, "channel visitors": 2}
TECHNIQUE = "path-sensitive typestate of the rcfile reader, per line and per channel"
NOTE = "what matches a mask is C31; lists are followed up to three masks; an override file that does not exist is ignored by design of the code"
CH = "_ZN6libcwd8channels2dc"
KEYS = ("silent", "gdb", "xterm", "channels_default", "channels_toggle", "channels_on", "channels_off")
STR = "std::__cxx11::basic_string<"


def chan(t):
    return t[1].replace(CH, "").lstrip("0123456789").rstrip("E") if t[0] == "g" and t[1].startswith(CH) else None


class Base(Rule):
    max_states = 20000
    merge = True
    unroll = 2

    def __init__(self, ctx, prog, fn):
        self.ctx, self.prog, self.fn = ctx, prog, fn
        self.str = strings(prog)
        self.bad, self.n, self.kinds = {}, 0, set()

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), st.path()))

    def text(self, t):
        return self.str.get(t[1], "").rstrip("\0") if t[0] == "g" and t[1] in self.str else None

    def fork(self, st, k, values):
        """one successor for each (value of component k, value of the call)"""
        out = []
        for v, c in values:
            s = st.copy()
            p = list(st.p)
            p[k] = v
            s.p = tuple(p)
            out.append((s, C(c)))
        return out

    def put(self, st, k, v):
        p = list(st.p)
        p[k] = v
        st.p = tuple(p)

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.startswith("llvm."):
            return ("pure",)
        if c.endswith("DebugObject_ThreadSpecificData::fatal_finish"):
            self.fatal(fl, st, ins)
            st.dead = True
            return ("pure",)
        return self.event(fl, st, ins, c, args)

    def fatal(self, fl, st, ins):
        pass


# ---------------------------------------------------------------- one channel
MATCH, ELF, OWN, ACT, REM, ONS, OFFS, CUR, SET = range(9)


class Channel(Base):
    """p = (matches, is ELFUTILS, state at first, action, remembered at first, on(), off(), state now, remembered now)"""
    merge = False

    def start(self, fl, st):
        st.p = (None, None, None, None, None, 0, 0, None, None)
        for k, v in getattr(self, "given", {}).items():
            self.put(st, k, v)

    def event(self, fl, st, ins, c, args):
        me = ("a", self.chan)
        if c.endswith("_private_::match"):
            return self.fork(st, MATCH, ((True, 1), (False, 0)))
        if "operator==" in c and any(self.text(a) == "ELFUTILS" for a in args) or c.endswith("::compare") and any(self.text(a) == "ELFUTILS" for a in args):
            z = (0, 1) if c.endswith("::compare") else (1, 0)
            if st.p[ELF] is not None:
                return ("val", C(z[0] if st.p[ELF] else z[1]))
            return self.fork(st, ELF, ((True, z[0]), (False, z[1])))
        if c.endswith("Channel::is_on") and args[0] == me:
            if st.p[CUR] is not None:
                return ("val", C(1 if st.p[CUR] else 0))
            out = []
            for v in (True, False):
                s = st.copy()
                self.put(s, CUR, v)
                if st.p[OWN] is None:
                    self.put(s, OWN, v)
                out.append((s, C(1 if v else 0)))
            return out
        if c.endswith("Channel::on") and args[0] == me:
            if st.p[CUR] is not False:
                self.report(st, ins, "calls on() for a channel that may be on")
            self.put(st, ONS, 1)
            self.put(st, CUR, None)         # more than one call may be needed
            return ("pure",)
        if c.endswith("Channel::off") and args[0] == me:
            if st.p[CUR] is not True:
                self.report(st, ins, "calls off() for a channel that may be off already")
            self.put(st, OFFS, min(2, st.p[OFFS] + 1))
            self.put(st, CUR, False)
            return ("pure",)
        if c.endswith(("Channel::on", "Channel::off")):
            self.report(st, ins, "switches another channel")
        return None if "DebugObject" in c else ("pure",)

    def load(self, fl, st, ins, a, f):
        if (f or "").endswith("RcFile::elfutils_on_"):
            if st.p[SET] is not None:
                return ("val", C(1 if st.p[SET] else 0))
            t = ("F", "rem")
            fl.wd[t] = 8
            return ("val", t)

    def store(self, fl, st, ins, a, v, f):
        if (f or "").endswith("RcFile::elfutils_on_"):
            self.put(st, SET, v == C(1) if v[0] == "c" else None)

    def remembered(self, fl, st):
        t = ("F", "rem")
        if t not in fl.wd:
            return None
        q = fl.possible(st, t, 8)
        return False if q == ((0, 0),) else True if q and q[0][0] > 0 else None

    def keep(self, fl, t):
        return isinstance(t, tuple) and (t[0] in ("a", "F") or len(t) > 1 and any(self.keep(fl, x) for x in t[1:]))

    def actions(self, fl, st):
        q = fl.possible(st, ("a", 3), 32)
        return [k for k, v in self.acts.items() if any(a <= v <= b for a, b in q)]

    def ret(self, fl, st, ins, v):
        self.n += 1
        p = st.p
        if not self.acts:
            self.visit(fl, st, ins)
            return
        sw = p[ONS] or p[OFFS] or p[SET] is not None
        if p[MATCH] is None:
            self.report(st, ins, "does not look whether the label matches")
        if not p[MATCH]:
            if sw:
                self.report(st, ins, "switches a channel that does not match")
            return
        for act in self.actions(fl, st):
            if p[ELF]:
                rem = self.remembered(fl, st)
                want = {"on": True, "off": False}.get(act, None if rem is None else not rem)
                if p[ONS]:
                    self.report(st, ins, "switches ELFUTILS on before the end")
                now = rem if p[SET] is None else p[SET]
                if want is None or now is not want:
                    self.report(st, ins, "does not remember ELFUTILS as the line says")
                if want is False and rem is not False and p[CUR] is not False:
                    self.report(st, ins, "may leave ELFUTILS on")
            else:
                if p[SET] is not None:
                    self.report(st, ins, "remembers another channel for ELFUTILS")
                want = {"on": True, "off": False}.get(act, None if p[OWN] is None else not p[OWN])
                if want is None or p[CUR] is not want:
                    self.report(st, ins, "does not leave a matching channel as the line says (%s)" % act)

    def visit(self, fl, st, ins):
        p = st.p
        if self.kind == "on":
            if p[OFFS]:
                self.report(st, ins, "turns a channel off")
            if p[ONS] and p[ELF] is not False:
                self.report(st, ins, "may turn on ELFUTILS before the end")
            if p[CUR] is not True and p[ELF] is not True:
                self.report(st, ins, "may leave a channel off")
        else:
            if p[ONS]:
                self.report(st, ins, "turns a channel on")
            if p[CUR] is not False:
                self.report(st, ins, "may leave a channel on")


# ---------------------------------------------------------------- lines
KW, VAL, EQ, EFF, RC, WARN, DEF, LAST, BADV, NEED, FORCED, FILE = range(12)


class Reader(Base):
    """p = (keyword, value, has an equal sign, what the line did, message channel on, warning channel (at first, now), a default was set,
           elfutils at the end, value is not one of the documented, must end in a fatal error, state objects in use, files opened)"""
    def start(self, fl, st):
        st.p = (None, None, None, (), None, None, (), None, False, None, (), 0)

    def eff(self, st, *e):
        if st.p[EFF].count(e) < 2:
            self.put(st, EFF, st.p[EFF] + (e,))

    def line(self, fl, st, ins):
        """a line (or the file) ends here"""
        p = st.p
        self.seen.add((p[KW], p[VAL], p[EQ]))
        if p[NEED]:
            self.report(st, ins, "goes on after " + p[NEED])
        e = tuple(x for x in p[EFF] if x[0] not in ("cmp",))
        k = p[KW]
        cmp = {x[1] for x in p[EFF] if x[0] == "cmp"}
        if p[WARN] is not None and p[WARN][0] is not p[WARN][1]:
            self.report(st, ins, "leaves the warning channel switched")
        kinds = [x[0] for x in e]
        if k is None:
            if e and "unknown" not in kinds:
                self.report(st, ins, "does something for a line that says nothing")
            elif "unknown" in kinds:
                if set(KEYS) - cmp:
                    self.report(st, ins, "takes a documented keyword for an unknown one")
                if kinds.count("unknown") != 1 or [x for x in kinds if x not in ("unknown", "warn", "say")]:
                    self.report(st, ins, "does more than warn about an unknown keyword")
                if ("unknown", True) in e and self.on and "warn" not in kinds:
                    self.report(st, ins, "does not warn about an unknown keyword")
        else:
            do = [x for x in e if x[0] not in ("say",)]
            ok = False
            if k in ("gdb", "xterm"):
                ok = do == [("assign", k)]
            elif k == "silent":
                ok = all(x[0] == "rc" for x in do) and (p[RC] is (p[VAL] != "on") if p[VAL] in ("on", "off") else not do)
            elif k == "channels_default":
                ok = do == [("default", p[VAL])] or (bool(do) or not self.on) and all(x[0] == "warn" for x in do) and p[DEF]
            elif k in ("channels_toggle", "channels_on", "channels_off"):
                a = k[9:]
                rest = [x for x in do if x != ("process", a)]
                ok = do.count(("process", a)) == 1 and do[-1] == ("process", a) and (not rest or len(rest) == 1 and rest[0] == ("default", {"on": "off", "off": "on"}.get(a)))
            if not ok:
                self.report(st, ins, "does not do for '%s' what it says%s" % (k, "" if p[VAL] is None else " (%s)" % p[VAL]))
        self.put(st, KW, None)
        self.put(st, VAL, None)
        self.put(st, EQ, None)
        self.put(st, EFF, ())
        self.put(st, WARN, None)
        self.put(st, BADV, False)

    def fatal(self, fl, st, ins):
        if st.p[KW] == "channels_toggle" and st.p[DEF] and not st.p[NEED]:
            self.report(st, ins, "refuses channels_toggle although a channels_default came before it")

    def event(self, fl, st, ins, c, args):
        p = st.p
        if re.search(r"ifstream.*::open$", c):
            self.put(st, FILE, min(p[FILE] + 1, 3))
            return None
        if c.startswith("std::getline"):
            self.line(fl, st, ins)
            return None
        if c.startswith("std::operator==<") or c.startswith("std::operator!=<"):
            ne = "operator!=" in c
            t = next((x for x in map(self.text, args) if x is not None), None)
            if t is None:
                return None
            y, n = (0, 1) if ne else (1, 0)
            if t in KEYS:
                if p[KW] is not None:
                    return ("val", C(y if p[KW] == t else n))
                if ("cmp", t) in p[EFF]:
                    return ("val", C(n))
                self.keys.add(t)
                a, b = st.copy(), st.copy()
                self.put(a, KW, t)
                self.put(b, EFF, p[EFF] + (("cmp", t),))
                return [(a, C(y)), (b, C(n))]
            if t in ("on", "off"):
                if p[VAL] is not None:
                    return ("val", C(y if p[VAL] == t else n))
                if ("no", t) in p[EFF]:
                    return ("val", C(n))
                a, b = st.copy(), st.copy()
                self.put(a, VAL, t)
                other = "off" if t == "on" else "on"
                if ("cmp", "v" + other) in p[EFF]:
                    self.put(b, BADV, True)
                    if p[KW] == "channels_default":
                        self.put(b, NEED, "a malformed value")
                self.put(b, EFF, p[EFF] + (("cmp", "v" + t),))
                return [(a, C(y)), (b, C(n))]
            return None
        if re.search(r"basic_string<.*>::(find|find_first_of)$", c) and len(args) > 1 and (self.text(args[1]) == "=" or args[1] == C(61)):
            if p[EQ] is not None:
                return None if p[EQ] else ("val", C(-1))
            a, b = st.copy(), st.copy()
            self.put(a, EQ, True)
            self.put(b, EQ, False)
            self.put(b, NEED, "a malformed line")
            t = ("i", ins.id)
            fl.wd[t] = 64
            fl.assume(a, fl.mk_icmp("ne", t, C(-1), 64), True)
            return [(a, t), (b, C(-1))]
        if re.search(r"basic_string<.*>::operator=$", c) and args:
            f = fl.root(args[0])
            d = args[0][2] if args[0][0] == "+" and isinstance(args[0][2], int) else None
            if f == ("a", 0) and d in self.members:
                self.eff(st, "assign", self.members[d])
            return None
        m = re.search(r"RcFile::(set_all_channels_on|set_all_channels_off|process_channels|unknown_keyword|determine_rcfile_name)", c)
        if m or ins.op in ("call", "invoke") and c.endswith("unknown_keyword"):
            n = m.group(1) if m else "unknown_keyword"
            if n.startswith("set_all"):
                self.eff(st, "default", n[17:])
                if p[KW] == "channels_default":
                    self.put(st, DEF, tuple(sorted(set(p[DEF]) | {p[FILE]})))
                return ("pure",)
            if n == "process_channels":
                a = {v: k for k, v in self.acts.items()}.get(args[2][1] if args[2][0] == "c" else None)
                if a == "toggle" and not p[DEF]:
                    self.report(st, ins, "processes channels_toggle without channels_default")
                self.eff(st, "process", a)
                return ("pure",)
            if n == "unknown_keyword":
                out = []
                for v in (True, False):
                    s = st.copy()
                    self.eff(s, "unknown", v)
                    out.append((s, C(1 if v else 0)))
                return out
            return ("pure",)
        if c.startswith("std::array<int") and c.endswith("operator[]"):
            t = ("F", "mark", args[1][1] if args[1][0] == "c" else None)
            fl.wd[t] = 64
            return ("val", t)
        k = chan(args[0]) if args else None
        if "Channel::" in c and k:
            n = c.rsplit("::", 1)[-1]
            if n == "force_on":
                self.put(st, FORCED, st.p[FORCED] + ((k, args[1]),))
                if k == "rcfile":
                    self.put(st, RC, True)
                return ("pure",)
            if n == "restore":
                if (k, args[1]) not in st.p[FORCED]:
                    self.report(st, ins, "restores a channel with a state that was not saved")
                self.put(st, FORCED, tuple(x for x in st.p[FORCED] if x != (k, args[1])))
                if k == "rcfile":
                    if p[RC] is not True:
                        self.report(st, ins, "restores its message channel while that is not on")
                    self.put(st, RC, None)
                return ("pure",)
            if k == "rcfile":
                if n == "is_on" and p[RC] is not None:
                    return ("val", C(1 if p[RC] else 0))
                if n in ("on", "off"):
                    if p[RC] is (n == "on"):
                        self.report(st, ins, "switches its message channel %s twice" % n)
                    self.put(st, RC, n == "on")
                    self.eff(st, "rc", n)
                    return ("pure",)
            if k == "warning":
                if any(x[0] == "warning" for x in p[FORCED]):
                    return ("val", C(1)) if n == "is_on" else ("pure",)
                if n == "is_on":
                    if p[WARN] is not None:
                        return ("val", C(1 if p[WARN][1] else 0))
                    return self.fork(st, WARN, (((True, True), 1), ((False, False), 0)))
                if n in ("on", "off"):
                    w = p[WARN] or (None, None)
                    if w[1] is (n == "on") or w[1] is None:
                        self.report(st, ins, "switches the warning channel %s without knowing that it is not" % n)
                    self.put(st, WARN, (w[0], n == "on"))
                    return ("pure",)
            if k == "elfutils":
                if n == "is_on":
                    return self.fork(st, LAST, ((True, 1), (False, 0)))
                if n in ("on", "off"):
                    if n == "off" or p[LAST] is not False or self.rem(fl, st) is not True:
                        self.report(st, ins, "switches ELFUTILS %s although it should not be" % n)
                    self.put(st, LAST, None)
                    return ("pure",)
            if n in ("on", "off"):
                self.report(st, ins, "switches dc::%s" % k)
        if c.endswith("DebugObject_ThreadSpecificData::finish"):
            w = st.p[WARN]
            if any(x[0] == "warning" for x in st.p[FORCED]) or w is not None and w[1]:
                self.eff(st, "warn")
            return ("pure",)
        if c.endswith("DebugObject_ThreadSpecificData::start") or c.endswith("print_delayed_msg"):
            return ("pure",)
        return None

    def load(self, fl, st, ins, a, f):
        if "::debug_object_off_array" in (f or "") or (f or "").endswith("DebugObject::_off"):
            return ("val", C(-1 if self.on else 0))
        if a[:2] == ("F", "mark") or self.local_element(fl, ins):
            k = a[2] if a[:2] == ("F", "mark") else a[2] // 4 if a[0] == "+" else 0 if a[0] == "al" else None
            if (st.p[FILE] if k is None else k + 1) not in st.p[DEF]:
                return ("val", C(0))
            t = ("i", ins.id)
            fl.wd[t] = 32
            fl.restrict(st, t, ((1, 0x7fffffff),), 32)
            return ("val", t)
        if (f or "").endswith("RcFile::elfutils_on_"):
            t = ("F", "elf")
            fl.wd[t] = 8
            return ("val", t)

    def local_element(self, fl, ins):
        """an element of a local array of integers that is indexed by a variable somewhere"""
        m = getattr(self, "arrays", None)
        if m is None:
            m = self.arrays = set()
            for g in fl.fn.ins.values():
                if g.op == "getelementptr" and g.get("voff") and g.get("voff")[0][1] == 4:
                    m.add(fl._root_alloca(g.ops[0]))
            m.discard(None)
        return isinstance(ins.ops[0], int) and fl._root_alloca(ins.ops[0]) in m

    def rem(self, fl, st):
        t = ("F", "elf")
        if t not in fl.wd:
            return None
        q = fl.possible(st, t, 8)
        return False if q == ((0, 0),) else True if q and q[0][0] > 0 else None

    def store(self, fl, st, ins, a, v, f):
        if a[:2] == ("F", "mark") and st.p[KW] != "channels_default":
            self.report(st, ins, "marks channels_default as seen for another keyword")

    def keep(self, fl, t):
        return isinstance(t, tuple) and (t[0] == "F" or len(t) > 1 and any(self.keep(fl, x) for x in t[1:]))

    def ret(self, fl, st, ins, v):
        self.n += 1
        if st.p[KW] or any(x[0] not in ("rc", "cmp") for x in st.p[EFF]):
            self.line(fl, st, ins)
        if st.p[NEED]:
            self.report(st, ins, "goes on after " + st.p[NEED])
        if st.p[FORCED]:
            self.report(st, ins, "leaves a channel forced on")
        if self.elf and not (self.rem(fl, st) is False or st.p[LAST] is True):
            self.report(st, ins, "may leave ELFUTILS off although it was switched on")


class Name(Base):
    """p = (last file looked for was found, warning channel)"""
    def start(self, fl, st):
        st.p = (None, None)

    def event(self, fl, st, ins, c, args):
        if c.endswith("RcFile::S_exists"):
            return self.fork(st, 0, ((True, 1), (False, 0)))
        k = chan(args[0]) if args else None
        if k == "warning" and c.endswith("Channel::is_on"):
            if st.p[1] is not None:
                return ("val", C(1 if st.p[1][1] else 0))
            return self.fork(st, 1, (((True, True), 1), ((False, False), 0)))
        if k and c.endswith(("Channel::on", "Channel::off")):
            n = c.endswith("on")
            w = st.p[1]
            if k != "warning" or w is None or w[1] is n:
                self.report(st, ins, "switches a channel without knowing its state")
            else:
                self.put(st, 1, (w[0], n))
        return None

    def ret(self, fl, st, ins, v):
        self.n += 1
        if st.p[0] is not True:
            self.report(st, ins, "returns the name of a file that was not found to be readable")
        if st.p[1] and st.p[1][0] is not st.p[1][1]:
            self.report(st, ins, "leaves the warning channel switched")


class All(Base):
    """p = (visited, remembered)"""
    def start(self, fl, st):
        st.p = (False, None)

    def event(self, fl, st, ins, c, args):
        if "DebugChannels::for_each" in c:
            self.put(st, 0, True)
            return None
        k = chan(args[0]) if args else None
        if k and c.endswith(("Channel::on", "Channel::off")):
            if not (k == "warning" and c.endswith("::on") and self.kind == "off" and st.p[0]):
                self.report(st, ins, "switches dc::%s by itself" % k)
            q = fl.possible(st, ("a", 1), 1)
            if any(a <= 0 <= b for a, b in q):
                self.report(st, ins, "switches dc::warning on although it was not told to")
        return ("pure",)

    def store(self, fl, st, ins, a, v, f):
        if (f or "").endswith("RcFile::elfutils_on_"):
            self.put(st, 1, v[1] if v[0] == "c" else None)

    def keep(self, fl, t):
        return True

    def ret(self, fl, st, ins, v):
        self.n += 1
        if not st.p[0]:
            self.report(st, ins, "does not visit every channel")
        if st.p[1] != (1 if self.kind == "on" else 0):
            self.report(st, ins, "does not remember the state of ELFUTILS")


class Exists(Base):
    def start(self, fl, st):
        st.p = (None, None)

    def event(self, fl, st, ins, c, args):
        if c in ("stat", "stat64", "lstat", "__xstat"):
            return self.fork(st, 0, ((True, 0), (False, -1)))
        if c in ("access", "euidaccess", "eaccess"):
            if not (args[1][0] == "c" and args[1][1] & 4):
                self.report(st, ins, "does not ask whether the file can be read")
            return self.fork(st, 1, ((True, 0), (False, -1)))
        return None

    def ret(self, fl, st, ins, v):
        self.n += 1
        q = fl.possible(st, v, 1)
        if any(a <= 1 <= b for a, b in q) and st.p != (True, True):
            self.report(st, ins, "says that a file exists that cannot be read")
        if st.p[1] is False:
            self.report(st, ins, "goes on with an unreadable file")


def run(ctx):
    prog = inl(dump=[r"^libcwd::RcFile::"], noinline=[r"^libcwd::(DebugObject|Channel)::", "DebugObject_ThreadSpecificData::", "::instance$", "RcFile::", "_private_::match$",
                                                     "^" + re.escape(STR)], inline=[r"::\$_\d+::operator\(\)"], witnesses=["enums.cc"])
    acts = {"toggle": 0, "on": 1, "off": 2}
    location = True
    cls = "libcwd::RcFile"
    members = {prog.offset(cls, "gdb_bin_"): "gdb", prog.offset(cls, "konsole_command_"): "xterm"}

    def finish(name, r):
        ctx.count("paths", r.n)
        if not r.n:
            raise Broken("no path through " + name)
        for m, (w, p) in r.bad.items():
            ctx.violation(name + "|" + m, "%s %s" % (name, m), w, p)
        if not r.bad:
            ctx.ok("%s: %d paths" % (name, r.n))

    def one(name):
        fs = [f for f in prog.fns.values() if f.base.split("[")[0] == "libcwd::RcFile::" + name and "$_" not in f.dem]
        if len(fs) != 1:
            raise Broken("anchor vanished: RcFile::" + name)
        ctx.analysed(fs[0])
        return fs[0]

    fn = one("process_channel")
    r = Channel(ctx, prog, fn)
    r.chan, r.acts = 1, acts
    analyse(fn, r, 100000)
    finish("process_channel()", r)
    for k in ("on", "off"):
        r = All(ctx, prog, one("set_all_channels_" + k))
        r.kind = k
        analyse(r.fn, r, 20000)
        finish("set_all_channels_%s()" % k, r)
        for f in prog.fns.values():
            if ("set_all_channels_" + k) in f.dem and re.search(r"\$_\d+::operator\(\)\(libcwd::Channel", f.dem):
                ctx.analysed(f)
                ctx.count("channel visitors")
                r = Channel(ctx, prog, f)
                r.chan, r.acts, r.kind = len(f.args) - 1, None, k
                analyse(f, r, 20000)
                finish("the visitor of set_all_channels_%s()" % k, r)
    import rctext
    rctext.run(ctx, strings)
    rctext.run_lines(ctx, strings)
    fn = one("read")
    keys, seen = set(), set()
    for on in (True, False):
        r = Reader(ctx, prog, fn)
        r.acts, r.members, r.keys, r.seen, r.elf, r.on = acts, members, keys, seen, location, on
        analyse(fn, r, 400000)
        finish("read() with libcw_do " + ("on" if on else "off"), r)
    if set(KEYS) - r.keys:
        for k in sorted(set(KEYS) - r.keys):
            ctx.violation("keyword|" + k, "read() never looks for the documented keyword '%s'" % k, fn.loc(), ())
    ctx.count("keywords", len(r.keys))
    ctx.count("lines", len(r.seen))
    fn = one("determine_rcfile_name")
    r = Name(ctx, prog, fn)
    analyse(fn, r, 100000)
    finish("determine_rcfile_name()", r)
    fn = one("S_exists")
    r = Exists(ctx, prog, fn)
    analyse(fn, r, 100000)
    finish("S_exists()", r)
