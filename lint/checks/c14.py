"""Interval analysis of strerrno: the argument starts as 'any 32-bit value'; the comparisons, switches and
the table subscript split that set; for every return the set of arguments that reach it is compared, value
by value, with the error names of the system headers (read from the preprocessor, not from the library).
Every subscript is checked against the size of the constant table it indexes."""
import re
from core import *
from flow import Rule, analyse, full, inter, compl

FLOORS = {"error numbers of the system": 100, "return points": 1}


def system_errnos():
    r = subprocess.run(["clang++", "-E", "-dM", "-x", "c++", "-include", "cerrno", "/dev/null"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    raw = dict(re.findall(r"#define (E[A-Z0-9]+) (\S+)", r.stdout))
    out = {}
    for n, v in raw.items():
        for _ in range(5):
            if v in raw:
                v = raw[v]
        if v.isdigit():
            out.setdefault(int(v), set()).add(n)
    if len(out) < 100:
        raise Broken("system error names not found")
    return out


class R(Rule):
    split_switch = True

    def __init__(self, ctx, prog, sysno):
        self.ctx, self.prog, self.sys = ctx, prog, sysno
        self.covered = {}
        self.unknown_texts = set()

    def keep(self, fl, term):
        return term == ("a", 0)

    def load(self, fl, st, ins, addr, fld):
        if addr[0] == "idx" and addr[1][0] == "g" and len(addr[3]) == 1:
            g = self.prog.globals.get(addr[1][1])
            if g and g.get("const") and "init" in g and "a" in g["init"]:
                (t, scale), k = addr[3][0], addr[2]
                tab = g["init"]["a"]
                esz = g["size"] // max(1, len(tab))
                f = fl.possible(st, t, fl.w(t))
                self.ctx.count("table subscripts")
                w = fl.w(t)
                bad = []
                for lo, hi in f:
                    for v in (lo, hi):
                        if not 0 <= v * scale + k <= g["size"] - esz:
                            bad.append(v)
                if bad:
                    fl.violate(st, ins, "table %s of %d entries is read at index %d" % (g["dem"], len(tab), (bad[0] * scale + k) // esz))
                else:
                    self.ctx.ok("%s: subscript range %s lies in the table of %d" % (ins.where(), f[:3], len(tab)))
                return ("val", ("tbl", addr[1][1], k, scale, t))
        elif addr[0] == "+" and addr[1][0] == "g" or addr[0] == "g":
            base = addr if addr[0] == "g" else addr[1]
            g = self.prog.globals.get(base[1])
            if g and g.get("const") and "init" in g and "a" in g["init"]:
                tab = g["init"]["a"]
                esz = g["size"] // max(1, len(tab))
                k = 0 if addr[0] == "g" else addr[2]
                if 0 <= k <= g["size"] - esz:
                    return ("val", ("tbl", base[1], k, esz, ("c", 0)))
                fl.violate(st, ins, "table %s is read at byte %d" % (g["dem"], k))
        return None

    def text(self, v):
        if isinstance(v, dict) and "s" in v:
            return v["s"]
        return None

    def ret(self, fl, st, ins, val):
        self.ctx.count("return points")
        f = fl.possible(st, ("a", 0), 32)
        if val[0] == "tbl":
            g = self.prog.globals[val[1]]
            tab = g["init"]["a"]
            esz = g["size"] // len(tab)
            idx = fl.possible(st, val[4], fl.w(val[4]))
            n = sum(hi - lo + 1 for lo, hi in f)
            if n > 5000:
                fl.violate(st, ins, "a table entry is returned for an unbounded set of error numbers")
                return
            if val[4] == ("a", 0) or fl.is_const(st, val[4], fl.const_of(st, val[4]) or 0):
                off = lambda e: (e if val[4] == ("a", 0) else fl.const_of(st, val[4])) * val[3] + val[2]
            elif val[4][0] == "+" and val[4][1] == ("a", 0):
                off = lambda e: ((e + val[4][2]) & 0xffffffff) * val[3] + val[2]
            else:
                raise Broken("strerrno: table index is not a function of the argument (%r)" % (val[4],))
            for lo, hi in f:
                for e in range(lo, hi + 1):
                    o = off(e)
                    if 0 <= o // esz < len(tab):
                        self.answer(fl, st, ins, e, self.text(tab[o // esz]))
            return
        s = None
        if val[0] == "g":
            s = self.strings.get(val[1])
        if s is None:
            s = self.fn_string(fl, ins, val)
        for lo, hi in f:
            if hi - lo > 5000:
                self.bulk(fl, st, ins, lo, hi, s)
            else:
                for e in range(lo, hi + 1):
                    self.answer(fl, st, ins, e, s)

    def fn_string(self, fl, ins, val):
        return None

    def bulk(self, fl, st, ins, lo, hi, s):
        for e in self.sys:
            if lo <= e <= hi:
                self.answer(fl, st, ins, e, s)
        self.covered[("rest", lo, hi)] = s
        if s is None:
            fl.violate(st, ins, "no constant text is returned for error numbers %d..%d" % (lo, hi))
        elif any(s in n for n in self.sys.values()):
            fl.violate(st, ins, "the name %r is returned for error numbers %d..%d" % (s, lo, hi))
        else:
            self.unknown_texts.add(s)

    def answer(self, fl, st, ins, e, s):
        self.ctx.count("error numbers decided")
        want = self.sys.get(e)
        self.covered[e] = s
        if e == 0:
            if s is None or any(s in n for n in self.sys.values()):
                fl.violate(st, ins, "error number 0 is named %r" % s)
        elif want is None:
            if s is None or any(s in n for n in self.sys.values()):
                fl.violate(st, ins, "undefined error number %d is named %r" % (e, s))
            else:
                self.unknown_texts.add(s)
        elif s not in want:
            fl.violate(st, ins, "error number %d is named %r instead of %s" % (e, s, "/".join(sorted(want))))
        else:
            self.ctx.ok("%d -> %s" % (e, s))


def run(ctx):
    prog = inl(dump=[r"^libcwd::strerrno$"])
    fn = prog.one("libcwd::strerrno")
    sysno = system_errnos()
    ctx.count("error numbers of the system", len(sysno))
    r = R(ctx, prog, sysno)
    # string constants named by operands of this function
    r.strings = {}

    def scan(v):
        if isinstance(v, dict):
            if "g" in v and "s" in v:
                r.strings[v["g"]] = v["s"]
            for x in v.values():
                scan(x)
        elif isinstance(v, list):
            for x in v:
                scan(x)
    for i in fn.instrs():
        scan(i.d)
    for g in prog.globals.values():
        if g.get("repo"):
            scan(g.get("init"))
    fl = analyse(fn, r)
    ctx.analysed(fn)
    ctx.from_flow(fl, "C14")
    for e in sysno:
        if e not in r.covered:
            raise Broken("no return point covers error number %d" % e)
    ctx.assume("the error names of the C library the check runs on are those of the platform")
