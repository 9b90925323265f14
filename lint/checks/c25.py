"""The tables of the ABI, against what the decoding functions do.

The functions that decode operator names, operators in expressions, builtin types, standard abbreviations, qualifiers
and special names are followed along every path for every pair of characters at the current position (constant tables are
read from their initialisers).  What an accepting path appends to the output, and how many operands it decodes, must be
what the Itanium C++ ABI assigns to those characters; characters without an assignment have no accepting path."""
from core import *
from demangle import *

DUMP = [r"session<std::allocator<char>>::decode_", r"qualifier_list<std::allocator<char>>::decode_", r"::qualifier<std::allocator<char>>::"]
FLOORS = {"operator codes": 20, "builtin codes": 15, "abbreviations": 5, "paths": 100}
TECHNIQUE = "constant propagation through every path of the decoding functions for all character pairs, compared with the ABI's tables"

OPS = dict(nw="new", na="new[]", dl="delete", da="delete[]", ps="+", ng="-", ad="&", de="*", co="~", pl="+", mi="-", ml="*", dv="/", rm="%",
           an="&", eo="^", aS="=", pL="+=", mI="-=", mL="*=", dV="/=", rM="%=", aN="&=", oR="|=", eO="^=", ls="<<", rs=">>", lS="<<=",
           rS=">>=", eq="==", ne="!=", lt="<", gt=">", le="<=", ge=">=", ss="<=>", nt="!", aa="&&", oo="||", pp="++", mm="--", cm=",", pm="->*",
           pt="->", cl="()", ix="[]", qu="?", st="sizeof", sz="sizeof", at="alignof", az="alignof", aw="co_await")
OPS["or"] = "|"
ARITY = {1: "ps ng ad de co nt pp mm dl da aw", 2: "pl mi ml dv rm an or eo aS pL mI mL dV rM aN oR eO ls rs lS rS eq ne lt gt le ge ss aa oo cm pm pt ix",
         3: "qu"}
ARITY = {c: n for n, l in ARITY.items() for c in l.split()}
BUILTIN = dict(v="void", w="wchar_t", b="bool", c="char", a="signed char", h="unsigned char", s="short", t="unsigned short", i="int",
               j="unsigned int", l="long", m="unsigned long", x="long long", y="unsigned long long", n="__int128", o="unsigned __int128",
               f="float", d="double", e="long double", g="__float128", z="...")
STD = dict(t=["std"], a=["std::allocator"], b=["std::basic_string"],
           s=["std::string", "std::basic_string<char, std::char_traits<char>, std::allocator<char> >"],
           i=["std::istream", "std::basic_istream<char, std::char_traits<char> >"],
           o=["std::ostream", "std::basic_ostream<char, std::char_traits<char> >"],
           d=["std::iostream", "std::basic_iostream<char, std::char_traits<char> >"])
SPECIAL = dict(TV="vtable for ", TT="VTT for ", TI="typeinfo for ", TS="typeinfo name for ", GV="guard variable for ", TC="construction vtable for ",
               Tc="covariant return thunk to ", Th="non-virtual thunk to ", Tv="virtual thunk to ")
EXTENDED = {"TH": "TLS init function for ", "TW": "TLS wrapper function for ", "GR": "reference temporary for ", "TA": "template parameter object for "}


def spaces(t):
    """what matters of spaces between a keyword and what follows"""
    return re.sub(r"\s+", " ", t).strip()


def run(ctx):
    prog = program(DUMP)
    tab = Table(prog)
    operators(ctx, prog, tab)
    expressions(ctx, prog, tab)
    builtins(ctx, prog, tab)
    abbreviations(ctx, prog, tab)
    special(ctx, prog, tab)
    qualifiers(ctx, prog, tab)
    qualifier_letters(ctx, prog, tab)
    letters_kept(ctx, prog, tab)


def pairs(prog, fn, tab, firsts, **kw):
    """all (c0, c1) that may be accepted: first by the first character alone, then for every second one"""
    for c0 in firsts:
        fl, r = paths(prog, fn, tab, {0: c0, 1: None, 2: None}, **kw)
        if not any(r.accepts(fl, st, v) for st, ins, v in r.rets):
            continue
        for c1 in range(1, 256):
            fl, r = paths(prog, fn, tab, {0: c0, 1: c1, 2: None}, **kw)
            acc = [(st, ins, v) for st, ins, v in r.rets if r.accepts(fl, st, v)]
            yield c0, c1, fl, r, acc


def shown(c):
    return chr(c) if 32 < c < 127 else "\\x%02x" % c


def appended(r, st, to, lax=False):
    """the text appended to string `to'; None in it where it is not a constant (lax: a gap)"""
    out = ""
    for e in r.events(st):
        if e[0] in ("put", "set") and e[1] == to:
            if not isinstance(e[2], str):
                if lax:
                    continue
                return None
            out = out + e[2] if e[0] == "put" else e[2]
        elif e[0] == "call":
            out += "\\0%s\\0" % e[1]
    return out


def operators(ctx, prog, tab):
    fn = prog.one(S + "decode_operator_name")
    ctx.analysed(fn)
    n0 = len(ctx.violations)
    got = set()
    for c0, c1, fl, r, acc in pairs(prog, fn, tab, range(1, 256)):
        code = shown(c0) + shown(c1)
        for st, ins, v in acc:
            ctx.count("paths")
            ev = [e for e in r.events(st) if e[0] == "call"]
            t = appended(r, st, ("a", 1))
            if code == "cv":
                t = appended(r, st, ("a", 1), True)
                if not re.match(r"operator \\0decode_type", t):
                    ctx.violation("abi|op|cv", "the conversion operator is not rendered as 'operator' and a type", ins.where(), st.path())
                got.add(code)
                continue
            if code not in OPS or code in ("st", "sz", "at", "az") and code not in OPS:
                ctx.violation("abi|op|%s" % code, "the unassigned operator code '%s' is accepted, as '%s'" % (code, t), ins.where(), st.path())
                continue
            got.add(code)
            want = "operator" + OPS[code]
            if t is None or re.sub(" ", "", t) != re.sub(" ", "", want) and re.sub(" ", "", t) != re.sub(" ", "", OPS[code]) or re.search(r"operator\w", t):
                ctx.violation("abi|op|%s" % code, "operator code '%s' is rendered as '%s', the ABI says '%s'" % (code, t, want), ins.where(), st.path())
            if ev:
                ctx.violation("abi|op|%s" % code, "operator code '%s' decodes something behind the code" % code, ins.where(), st.path())
    ctx.count("operator codes", len(got))
    lost = [c for c in OPS if c not in got and c not in ("ss", "at", "az", "aw")]
    for c in lost:
        ctx.violation("abi|op|lost|%s" % c, "operator code '%s' (%s) is not accepted" % (c, OPS[c]), fn.where())
    if len(ctx.violations) == n0:
        ctx.ok("decode_operator_name: %d codes rendered as the ABI says, no other code accepted" % len(got))


def expressions(ctx, prog, tab):
    fn = prog.one(S + "decode_expression")
    ctx.analysed(fn)
    n0 = len(ctx.violations)
    got = set()
    firsts = [c for c in range(1, 256) if chr(c) not in "TL"]
    for c0, c1, fl, r, acc in pairs(prog, fn, tab, firsts):
        code = shown(c0) + shown(c1)
        for st, ins, v in acc:
            ctx.count("paths")
            calls = [e[1] for e in r.events(st) if e[0] == "call"]
            t = appended(r, st, ("a", 1))
            if code in ("st", "sz", "at", "az", "sr", "cv"):
                t = appended(r, st, ("a", 1), True)
            if code in ("st", "sz", "at", "az"):
                want = "decode_type" if code[1] == "t" else "decode_expression"
                if t is None or not re.match(r"%s ?\((typename )?\\0%s(_with_postfix)?\\0.*\)$" % (OPS[code], want), t):
                    ctx.violation("abi|expr|%s" % code, "'%s' is not rendered as %s of %s" % (code, OPS[code], "a type" if code[1] == "t" else "an expression"),
                                  ins.where(), st.path())
                got.add(code)
                continue
            if code == "sr":
                if t is None or not re.match(r"\\0decode_type\w*\\0.*::.*\\0decode_unqualified_name\\0", t):
                    ctx.violation("abi|expr|sr", "'sr' is not rendered as a type, '::' and a name", ins.where(), st.path())
                continue
            if code == "cv":
                if t is None or not re.match(r"\(\\0decode_type\w*\\0.*\)\(\\0decode_expression\\0\)$", t):
                    ctx.violation("abi|expr|cv", "a conversion is not rendered as a type and an expression", ins.where(), st.path())
                continue
            if code not in OPS:
                ctx.violation("abi|expr|%s" % code, "the unassigned operator code '%s' is accepted in an expression" % code, ins.where(), st.path())
                continue
            got.add(code)
            n = calls.count("decode_expression")
            if code in ARITY and n != ARITY[code]:
                ctx.violation("abi|expr|arity|%s" % code, "operator '%s' (%s) is decoded with %d operand%s, it has %d" % (
                    code, OPS[code], n, "s" if n != 1 else "", ARITY[code]), ins.where(), st.path())
                continue
            if t is None:
                ctx.violation("abi|expr|%s" % code, "what is rendered for operator '%s' is not constant" % code, ins.where(), st.path())
                continue
            body = re.sub(r"[()\s]", "", t).replace("\\0decode_expression\\0", "@")
            op = re.sub(r"[()\s]", "", OPS[code])
            want = {1: [op + "@"], 2: ["@" + op + "@"] if code != "ix" else ["@[@]", "@[]@"], 3: ["@?@:@"]}.get(ARITY.get(code))
            if want and body not in want:
                ctx.violation("abi|expr|%s" % code, "operator '%s' (%s) is rendered as '%s' in an expression" % (code, OPS[code], body.replace("@", "x")),
                              ins.where(), st.path())
    for c in ARITY:
        if c not in got and c not in ("ss", "aw"):
            ctx.violation("abi|expr|lost|%s" % c, "operator code '%s' (%s) is not accepted in an expression" % (c, OPS[c]), fn.where())
    ctx.count("operator codes", len(got))
    if len(ctx.violations) == n0:
        ctx.ok("decode_expression: %d operators with the operands and the text of the ABI, no other code accepted" % len(got))


def builtins(ctx, prog, tab):
    fn = prog.one(S + "decode_builtin_type")
    ctx.analysed(fn)
    n0 = len(ctx.violations)
    got = set()
    for c0 in range(1, 256):
        fl, r = paths(prog, fn, tab, {0: c0, 1: None})
        for st, ins, v in r.rets:
            if not r.accepts(fl, st, v):
                continue
            ctx.count("paths")
            t = appended(r, st, ("a", 1))
            c = shown(c0)
            if c not in BUILTIN:
                if any(e[0] == "call" for e in r.events(st)):
                    continue            # a longer code
                ctx.violation("abi|builtin|%s" % c, "the unassigned type code '%s' is accepted, as '%s'" % (c, t), ins.where(), st.path())
                continue
            got.add(c)
            if t != BUILTIN[c]:
                ctx.violation("abi|builtin|%s" % c, "type code '%s' is rendered as '%s', the ABI says '%s'" % (c, t, BUILTIN[c]), ins.where(), st.path())
    ctx.count("builtin codes", len(got))
    for c in BUILTIN:
        if c not in got:
            ctx.violation("abi|builtin|lost|%s" % c, "type code '%s' (%s) is not accepted" % (c, BUILTIN[c]), fn.where())
    if len(ctx.violations) == n0:
        ctx.ok("decode_builtin_type: %d codes rendered as the ABI says, no other code accepted" % len(got))


def abbreviations(ctx, prog, tab):
    fn = prog.one(S + "decode_substitution")
    ctx.analysed(fn)
    n0 = len(ctx.violations)
    fo = prog.offset(S[:-2], "function_name_")
    got = set()
    for c1 in range(1, 256):
        c = shown(c1)
        if c.isdigit() or c.isupper() or c == "_":
            continue
        fl, r = paths(prog, fn, tab, {0: ord("S"), 1: c1, 2: None})
        for st, ins, v in r.rets:
            if not r.accepts(fl, st, v):
                continue
            ctx.count("paths")
            t = appended(r, st, ("a", 1))
            if c not in STD:
                ctx.violation("abi|std|%s" % c, "the unassigned abbreviation 'S%s' is accepted, as '%s'" % (c, t), ins.where(), st.path())
                continue
            got.add(c)
            if t not in STD[c]:
                ctx.violation("abi|std|%s" % c, "the abbreviation 'S%s' is rendered as '%s', the ABI says '%s'" % (c, t, STD[c][0]), ins.where(), st.path())
            for e in r.events(st):
                if e[0] == "set" and e[1] == fl.mk_add(("a", 0), fo) and isinstance(e[2], str):
                    if not any(re.sub(r"<.*", "", x).endswith("::" + e[2]) for x in STD[c]):
                        ctx.violation("abi|std|name|%s" % c, "a constructor of 'S%s' is named '%s'" % (c, e[2]), ins.where(), st.path())
    for c in STD:
        if c not in got:
            ctx.violation("abi|std|lost|%s" % c, "the abbreviation 'S%s' is not accepted" % c, fn.where())
    ctx.count("abbreviations", len(got))
    if len(ctx.violations) == n0:
        ctx.ok("decode_substitution: %d standard abbreviations rendered as the ABI says, no other accepted" % len(got))


def special(ctx, prog, tab):
    fn = prog.one(S + "decode_special_name")
    ctx.analysed(fn)
    n0 = len(ctx.violations)
    got = set()
    for c0, c1, fl, r, acc in pairs(prog, fn, tab, [ord("T"), ord("G")]):
        code = shown(c0) + shown(c1)
        for st, ins, v in acc:
            ctx.count("paths")
            t = appended(r, st, ("a", 1), True)
            want = SPECIAL.get(code) or EXTENDED.get(code)
            t = re.sub(r"\\0.*", "", t)
            if want is None or code in EXTENDED and t != want:
                if t not in SPECIAL.values() or not any(e[0] == "call" and e[1] == "decode_call_offset" for e in r.events(st)):
                    ctx.violation("abi|special|%s" % code, "the unassigned special name '%s' is accepted, as '%s'" % (code, t), ins.where(), st.path())
                continue
            got.add(code)
            if t != want:
                ctx.violation("abi|special|%s" % code, "the special name '%s' is rendered as '%s', the ABI says '%s'" % (code, t, want), ins.where(), st.path())
    for c in SPECIAL:
        if c not in got:
            ctx.violation("abi|special|lost|%s" % c, "the special name '%s' is not accepted" % c, fn.where())
    if len(ctx.violations) == n0:
        ctx.ok("decode_special_name: %d special names rendered as the ABI says" % len(got))


class Qual(Dec):
    """decode_qualifiers for a given list of qualifiers"""

    def __init__(self, prog, table, seq):
        Dec.__init__(self, prog, table, {})
        self.seq = seq

    def at(self, st):
        """index of the qualifier and of the letter last read"""
        k, n = -1, 0
        for e in self.events(st):
            if e[0] == "first":
                k, n = k + 1, 1
            elif e[0] == "next":
                n += 1
        return k, n

    def known(self, fl, st, ins, args, c):
        m = re.search(r"qualifier<.*>::(first_qualifier|next_qualifier|get_optional_type)\(?", c)
        if m:
            k, n = self.at(st)
            if m.group(1) == "get_optional_type":
                return ("val", ("w", "opt", k))
            if m.group(1) == "first_qualifier":
                if k + 1 >= len(self.seq):
                    self.event(st, "end")
                    self.end(fl, st, ins)
                    return ("pure",)
                self.event(st, "first")
                return ("val", C(ord(self.seq[k + 1][0])))
            self.event(st, "next")
            t = self.seq[k]
            return ("val", C(ord(t[n]) if 0 <= k and n < len(t) else 0))
        return Dec.known(self, fl, st, ins, args, c)


QUALS = {("P",): "*", ("R",): "&", ("K",): " const", ("V",): " volatile", ("r",): " restrict", ("KV",): " const volatile", ("VK",): " const volatile",
         ("rVK",): " const volatile restrict", ("P", "K"): "* const", ("K", "P"): " const*", ("V", "R"): " volatile&", ("P", "P"): "**",
         ("K", "P", "V"): " const* volatile", ("r", "P", "R"): " restrict*&", ("K", "M"): " const ~::*", ("M",): " ~::*", ("U",): " ~", ("G",): "",
         ("K", "U"): " const ~", ("P", "M", "K"): "* ~::* const", ("KVr", "P"): " const volatile restrict*"}
# the lists are given from the qualified type outwards: the order in which qualifiers are read, which is opposite to the
# order of the letters in the name


def qualifiers(ctx, prog, tab):
    fn = prog.one(NS + "qualifier_list<std::allocator<char>>::decode_qualifiers")
    ctx.analysed(fn)
    n0 = len(ctx.violations)
    for seq, want in sorted(QUALS.items()):
        r = Qual(prog, tab, seq)
        fl = analyse(fn, r)
        n = 0
        for st, ins, v in r.rets:
            if r.at(st)[0] + 1 != len(seq):
                continue            # the list would have been shorter
            n += 1
            ctx.count("paths")
            t = ""
            for e in r.events(st):
                if e[0] in ("put", "set") and e[1] == ("a", 1):
                    x = e[2] if isinstance(e[2], str) else "~" if e[2][:2] == ("w", "opt") else "?"
                    t = t + x if e[0] == "put" else x
            if t != want:
                ctx.violation("abi|qual|%s" % ".".join(seq), "the qualifiers %s are rendered as '%s' instead of '%s'" % (
                    ", ".join("'%s'" % x for x in seq), t, want), ins.where(), st.path())
                break
        if not n:
            raise Broken("decode_qualifiers: no path for %s" % (seq,))
        ctx.count("qualifier lists")
    if len(ctx.violations) == n0:
        ctx.ok("decode_qualifiers: %d lists of qualifiers rendered as the ABI says" % len(QUALS))


class Letters(Dec):
    """the first qualifier, or what is decoded without one"""

    def known(self, fl, st, ins, args, c):
        if re.search(r"::add_qualifier_start$", c):
            self.event(st, "qual", args[1])
            self.end(fl, st, ins)
            return ("pure",)
        if c.startswith(S + "decode_"):
            n = sum(1 for e in self.events(st) if e[0] == "call")
            self.event(st, "call", c[len(S):], tuple(args))
            if n or chr(self.chars[0]) not in "AMU":
                self.end(fl, st, ins)
                return ("pure",)
            self.clob(fl, st)
            return ("val", C(1))
        return Dec.known(self, fl, st, ins, args, c)


LETTERS = dict(P=("", "P", None), R=("", "R", None), K=("", "K", None), V=("", "K", None), r=("", "K", None), C=("complex ", "G", None),
               G=("imaginary ", "G", None), A=("", "A", ("decode_number", "decode_expression")), M=("", "M", ("decode_type_with_postfix", "decode_type")),
               U=("", "U", ("decode_source_name",)))


class Fields(Dec):
    """a member of class qualifier, count_ given"""

    def __init__(self, prog, table, q, count=None):
        Dec.__init__(self, prog, table, {})
        self.q, self.count = q, count

    def load(self, fl, st, ins, a, f):
        if self.count is not None and a == fl.mk_add(("a", 0), self.q["count_"]) and a not in st.mem:
            return ("val", C(self.count))
        return Dec.load(self, fl, st, ins, a, f)


def letters_kept(ctx, prog, tab):
    """class qualifier keeps the letters it is given and hands them out in order"""
    Q = NS + "qualifier<std::allocator<char>>"
    off = {m: prog.offset(Q, m) for m in ("qualifier1_", "qualifier2_", "qualifier3_", "count_")}
    n0 = len(ctx.violations)
    for name, count, want, after in (("first_qualifier", None, "qualifier1_", 1), ("next_qualifier", 1, "qualifier2_", 2),
                                     ("next_qualifier", 2, "qualifier3_", 3), ("next_qualifier", 3, None, None)):
        fn = prog.one(Q + "::" + name)
        ctx.analysed(fn)
        r = Fields(prog, tab, off, count)
        fl = analyse(fn, r)
        for st, ins, v in r.rets:
            ctx.count("paths")
            w = C(0) if want is None else ("m0", fl.mk_add(("a", 0), off[want]))
            if v != w:
                ctx.violation("abi|letters|%s|%s" % (name, count), "%s() does not return %s%s" % (
                    name, want or "0", "" if count is None else " when %d letters were read" % count), ins.where(), st.path())
            c = r.final(fl, st, fl.mk_add(("a", 0), off["count_"]))
            if after and c != C(after):
                ctx.violation("abi|letters|count|%s|%s" % (name, count), "%s() does not count the letters read" % name, ins.where(), st.path())
    n = 0
    for fn in prog.fns.values():
        if not fn.dem.startswith(Q + "::qualifier(int"):
            continue
        cv = "cv_qualifier_nt" in fn.dem
        n += 1
        ctx.analysed(fn)
        r = Fields(prog, tab, off)
        fl = analyse(fn, r)
        for st, ins, v in r.rets:
            ctx.count("paths")
            got = r.final(fl, st, fl.mk_add(("a", 0), off["qualifier1_"]))
            if not cv:
                a = ("a", 2)
                ok = got is not None and (got == a or got[0] == "trunc" and a in got or lowbits(got, a))
                if not ok:
                    ctx.violation("abi|letters|ctor", "a qualifier does not keep the letter it is given", fn.where(), st.path())
                continue
            for k in range(3):
                got = r.final(fl, st, fl.mk_add(("a", 0), off["qualifier%d_" % (k + 1)]))
                if got is None or got != ("m0", fl.mk_add(("a", 3), k)):
                    cnt = [x for x in fl.possible(st, ("a", 4), 32)] if got == C(0) else []
                    if not (got == C(0) and k and all(k >= s64(hi) or s64(lo) < 0 for lo, hi in cnt)):
                        ctx.violation("abi|letters|cv", "letter %d of a series of cv-qualifiers is not kept" % (k + 1), fn.where(), st.path())
    if n < 3:
        raise Broken("constructors of class qualifier not found")
    if len(ctx.violations) == n0:
        ctx.ok("class qualifier keeps up to three letters and returns them in order")


def s64(x):
    x &= (1 << 32) - 1
    return x - (1 << 32) if x >> 31 else x


def lowbits(t, a):
    while t[0] in ("trunc", "sext", "zext") or t[0] == "and" and t[2] == 255:
        t = t[2] if t[0] in ("sext", "zext") else t[1] if t[0] == "and" else t[-1]
    return t == a


def qualifier_letters(ctx, prog, tab):
    """which letters are taken as qualifiers of a type, and as which"""
    fn = prog.one(S + "decode_type_with_postfix")
    ctx.analysed(fn)
    n0 = len(ctx.violations)
    got = set()
    for c0 in range(1, 256):
        c = shown(c0)
        fl, r = paths(prog, fn, tab, {0: c0, 1: ord("i"), 2: None}, cls=Letters)
        for st, ins in r.ends:
            ctx.count("paths")
            q = [e[1] for e in r.events(st) if e[0] == "qual"]
            t = appended(r, st, ("a", 1), True)
            call = [e[1] for e in r.events(st) if e[0] == "call"]
            want = LETTERS.get(c)
            if want is None:
                if q:
                    ctx.violation("abi|letter|%s" % c, "'%s' is taken as a qualifier of a type" % c, ins.where(), st.path())
                continue
            if q and q[0] != C(ord(want[1])) and not (c == "M" and q[0] == C(ord("K"))) or want[2] is None and not q or want[2] and call and call[0] not in want[2]:
                ctx.violation("abi|letter|%s" % c, "'%s' is not taken as qualifier '%s' of the type" % (c, want[1]), ins.where(), st.path())
            elif t.replace("\\0%s\\0" % "".join(call[:1]), "") != want[0] and q:
                ctx.violation("abi|letter|text|%s" % c, "the type qualifier '%s' is rendered as '%s', the ABI says '%s'" % (c, t, want[0]),
                              ins.where(), st.path())
            if q:
                got.add(c)
    ctx.count("qualifier letters", len(got))
    for c in LETTERS:
        if c not in got:
            ctx.violation("abi|letter|lost|%s" % c, "'%s' is not accepted as a qualifier of a type" % c, fn.where())
    if len(ctx.violations) == n0:
        ctx.ok("decode_type_with_postfix: %d letters qualify a type" % len(got))
