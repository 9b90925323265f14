"""The demangler's decoding functions as tables: what is appended, which characters are consumed and which decoding
functions are called on every path, for given characters at the current position."""
from core import *
from sym import *
import lin

NS = "__gnu_cxx::demangler::"
S = NS + "session<std::allocator<char>>::"
NOINL = [r"session<std::allocator<char>>::decode_(?!type$|class_enum_type$)", r"^std::(?!(max|min)<)", r"::add_substitution$", r"::qualifier_list<.*>::(?!decode_KVrA)",
         r"::qualifier<", r"::implementation_details::", r"^libcwd::demangle_type$"]


def program(dump, noinline=()):
    return inl(dump=dump, noinline=list(NOINL) + list(noinline))


def strings(prog):
    s = getattr(prog, "_cstrings", None)
    if s is None:
        s = prog._cstrings = {}

        def go(v):
            if isinstance(v, dict):
                if "g" in v and "s" in v:
                    s[v["g"]] = v["s"]
                for x in v.values():
                    go(x)
            elif isinstance(v, list):
                for x in v:
                    go(x)
        for fn in prog.fns.values():
            for i in fn.instrs():
                for o in i.ops:
                    go(o)
                if i.op == "phi":
                    for v, b in i.get("in"):
                        go(v)
        for g in prog.globals.values():
            go(g.get("init"))
    return s


class Table:
    """constant globals by byte offset"""

    def __init__(self, prog):
        self.prog = prog
        self.cache = {}

    def flat(self, name):
        if name not in self.cache:
            g = self.prog.globals.get(name)
            m = None
            if g and g.get("const") and g.get("init") is not None:
                m = {}
                try:
                    self.put(m, 0, g["type"], g["init"])
                except ValueError:
                    m = None
            elif not g and name in strings(self.prog) or g and name in strings(self.prog):
                t = strings(self.prog)[name]
                m = {k: {"c": ord(c)} for k, c in enumerate(t)}
                m[len(t)] = {"c": 0}
            self.cache[name] = m
        return self.cache[name]

    def size(self, ty):
        ty = ty.strip()
        m = re.match(r"\[(\d+) x (.*)\]$", ty)
        if m:
            return int(m.group(1)) * self.size(m.group(2))
        m = re.match(r"i(\d+)$", ty)
        if m:
            return (int(m.group(1)) + 7) // 8
        if ty == "ptr":
            return 8
        m = re.match(r'%"?(?:struct|class)\.(.*?)"?$', ty)
        if m:
            return self.prog.size(re.sub(r"\.\d+$", "", m.group(1)))
        m = re.match(r"<\{(.*)\}>$", ty)
        if m:
            return sum(self.size(x) for x in split(m.group(1)))
        raise ValueError(ty)

    def put(self, m, off, ty, init):
        ty = ty.strip()
        if not isinstance(init, dict):
            raise ValueError(str(init))
        a = re.match(r"\[(\d+) x (.*)\]$", ty)
        if a:
            n, e = int(a.group(1)), a.group(2)
            sz = self.size(e)
            if "s" in init and "g" not in init:
                for k, c in enumerate(init["s"]):
                    m[off + k] = {"c": ord(c)}
                return
            for k in range(n):
                self.put(m, off + k * sz, e, init["a"][k] if "a" in init else {"n": 1})
            return
        a = re.match(r"<\{(.*)\}>$", ty)
        if a:
            for k, e in enumerate(split(a.group(1))):
                self.put(m, off, e, init["a"][k] if "a" in init else {"n": 1})
                off += self.size(e)
            return
        a = re.match(r'%"?(?:struct|class)\.(.*?)"?$', ty)
        if a:
            r = self.prog._recname.get(re.sub(r"\.\d+$", "", a.group(1)))
            if r is None:
                raise ValueError(ty)
            for k, mem in enumerate(r["members"]):
                m[off + mem[1]] = init["a"][k] if "a" in init else {"n": 1}
            return
        m[off] = {"c": 0} if "n" in init and ty != "ptr" else init


def split(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "[{<":
            d += 1
        if c in "]}>":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + ([cur] if cur.strip() else [])


class Dec(Sym):
    """one decoding function, with the characters at the current position given (chars[k] is k further)"""
    max_states = 3000
    collapse = ()
    same_base = True

    def __init__(self, prog, table, chars, out=1):
        Sym.__init__(self)
        self.prog, self.table, self.chars, self.out = prog, table, chars, out
        self.offs = {m: prog.offset(S[:-2], m) for m in ("str_", "pos_", "maxpos_", "result_")}
        self.str = strings(prog)

    def field(self, fl, m):
        return fl.mk_add(("a", 0), self.offs[m])

    def load(self, fl, st, ins, a, f):
        if ins.get("t") == "i8":
            x = lin.lf(fl, a)
            s = ("m0", self.field(fl, "str_"))
            if x[0].get(s) == 1:
                k = self.rel(fl, x, s)
                if k is not None and k in self.chars:
                    v = self.chars[k]
                    if v is not None:
                        return ("val", C(v & 0xff))
                    t = ("ch", k)
                    fl.wd[t] = 8
                    return ("val", t)
        if a == self.field(fl, "maxpos_") and a not in st.mem:
            # the characters given are there
            if st.p[1] == 0:
                return ("val", fl.mk_add(self.pos0(fl), 1 << 20))
        b = a[1] if a[0] == "+" else a
        if b[0] == "g" and a not in st.mem:
            t = self.table.flat(b[1])
            if t is not None:
                v = t.get(a[2] if a[0] == "+" else 0)
                if v is not None:
                    return ("val", fl.val(None, v))
        return Sym.load(self, fl, st, ins, a, f)

    def pos0(self, fl):
        t = ("m0", self.field(fl, "pos_"))
        fl.wd[t] = 32
        return t

    def rel(self, fl, x, s):
        p = ("m0", self.field(fl, "pos_"))
        rest = {t: c for t, c in x[0].items() if t != s}
        if len(rest) == 1:
            t, c = next(iter(rest.items()))
            while t[0] in ("sext", "zext"):
                t = t[2]
            if t == p and c == 1:
                return x[1]
        return None

    def text(self, t):
        if t is None:
            return None
        if t[0] == "g":
            return self.str.get(t[1])
        if t[0] == "+" and t[1][0] == "g" and t[1][1] in self.str:
            return self.str[t[1][1]][t[2]:]
        if t[0] == "c":
            return chr(t[1] & 0xff)
        return None

    def known(self, fl, st, ins, args, c):
        m = re.search(r"basic_string<.*>::(operator\+=|append|push_back|operator=|assign)$", c)
        if m and len(args) == 2:
            self.event(st, "put" if m.group(1) not in ("operator=", "assign") else "set", args[0], self.text(args[1]) if self.text(args[1]) is not None else args[1])
            return ("pure",)
        if c == "tolower" or c == "toupper" or c in ("isdigit", "isupper", "islower"):
            v = args[0]
            if v[0] == "c":
                x = v[1] & 0xff
                ch = chr(x) if x < 128 else None
                r = {"tolower": lambda: ord(ch.lower()), "toupper": lambda: ord(ch.upper()), "isdigit": lambda: int(ch.isdigit()),
                     "isupper": lambda: int(ch.isupper()), "islower": lambda: int(ch.islower())}[c]() if ch else (v[1] if c[0] == "t" else 0)
                return ("val", C(r))
            t = (c, v)
            fl.wd[t] = 32
            return ("val", t)
        if c.startswith(("std::", "operator ")):
            self.event(st, "std", c, tuple(args))
            return ("pure",)
        if c.endswith(("::get_style_compact_expr_ops", "::get_style_sizeof_typename", "::get_style_void", "::get_style_literal")):
            return ("pure",)
        if c.endswith("::add_substitution"):
            return ("pure",)
        if c.startswith(S + "decode_"):
            self.event(st, "call", c[len(S):], tuple(args))
            self.clob(fl, st)
            t = fl.fresh(st, ins)
            return ("val", t)
        if c.startswith(NS):
            self.event(st, "lib", c[len(NS):], tuple(args))
            return ("pure",)
        return None

    def accepts(self, fl, st, v):
        """does this return report success (what result_ says, or true)?"""
        if v is None:
            return False
        s = fl.possible(st, v, fl.w(v))
        return not (len(s) == 1 and s[0] == (0, 0))


def paths(prog, fn, table, chars, cls=Dec, **kw):
    r = cls(prog, table, chars, **kw)
    fl = analyse(fn, r)
    return fl, r
