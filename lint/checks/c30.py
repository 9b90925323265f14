"""Enumeration of all configurations over the syntax tree of the signature.

For every combination of the build options that appear in config.h.in, the initializer of the signature is taken from
the type-checked syntax tree, with the version parts left as variables, and evaluated for every version number whose
parts fit their fields (0 to 127): no two of these may give the same value when an option that matters differs or the version differs.
An option matters when it is one of the documented ones or when it changes anything in the headers a program includes.
The startup check, compiled as a user calls it, is followed on every path: the signature of the library is obtained
first, a difference always ends in one of the fatal reports, which never return, and nothing else is reached; the
library's signature is a constant compiled into the library, not into the program."""
from core import *
from sym import *
import itertools, subprocess
from array import array

FLOORS = {"configurations": 8, "options": 4, "startup paths": 2, "fatal reports": 2}
TECHNIQUE = "exhaustive evaluation of the signature's syntax tree over all configurations; path analysis of the startup check"
MUST = ("LOCATION", "DEBUG", "DEBUGT", "DEBUGOUTPUT")
SUFFIX = (("", "int"), ("U", "unsigned"), ("u", "unsigned"), ("L", "long"), ("l", "long"), ("UL", "unsigned long"), ("ul", "unsigned long"),
          ("ULL", "unsigned long long"))
SIG = "config_signature_header_c"


def ast_of(gen, name, opts):
    src = os.path.join(gen, "t.cc")
    open(src, "w").write("".join("constexpr %s vp_%s%s = 1;\n" % (t, v, x) for v in ("major", "minor", "revision") for x, t in SUFFIX) + "#include \"libcwd/config.h\"\n")
    r = sh(["clang++", "-std=c++20", "-w", "-DCWDEBUG", "-fsyntax-only"] + includes(gen) + ["-Xclang", "-ast-dump=json", "-Xclang",
           "-ast-dump-filter=" + name, src])
    if r.returncode:
        raise Broken("config.h does not compile: " + r.stderr[:300])
    dec, s, out = json.JSONDecoder(), r.stdout, []
    i = 0
    while True:
        while i < len(s) and s[i] in " \n\r\t":
            i += 1
        if i >= len(s):
            break
        if s[i] != "{":
            i = s.find("\n", i)
            if i < 0:
                break
            continue
        o, i = dec.raw_decode(s, i)
        out.append(o)
    out = [o for o in out if o["kind"] == "VarDecl" and o["name"] == name and o.get("inner")]
    if len(out) != 1:
        raise Broken("anchor vanished: " + name)
    return out[0]


OPS = {"+", "-", "*", "|", "&", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!="}


def expr(n, gen, opts, depth=0):
    """Python expression for a constant expression of the syntax tree"""
    k = n["kind"]
    inner = [c for c in n.get("inner", []) if not c["kind"].endswith(("Type", "Attr", "Comment"))]
    if depth > 60:
        raise Broken("signature: expression too deep")
    e = lambda x: expr(x, gen, opts, depth + 1)
    if k == "VarDecl":
        return e(inner[-1])
    if k in ("ParenExpr", "ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "ConstantExpr", "InitListExpr",
             "ExprWithCleanups", "SubstNonTypeTemplateParmExpr") and len(inner) >= 1:
        v = e(inner[-1])
        if n.get("castKind") == "IntegralToBoolean":
            return "int((%s) != 0)" % v
        t = n.get("type", {}).get("qualType", "")
        if n.get("castKind") == "IntegralCast" and "unsigned" in t:
            return "((%s) & %d)" % (v, (1 << (64 if "long" in t else 8 if "char" in t else 16 if "short" in t else 32)) - 1)
        return v
    if k in ("IntegerLiteral", "CharacterLiteral"):
        return str(int(n["value"]))
    if k == "CXXBoolLiteralExpr":
        return "1" if n["value"] else "0"
    if k == "DeclRefExpr":
        d = n["referencedDecl"]["name"]
        if d.startswith("vp_"):
            return re.sub("(?i)(u|l|ul|ull)$", "", d)
        return "(" + expr(ast_of(gen, d, opts), gen, opts, depth + 1) + ")"
    if k == "BinaryOperator":
        op = n["opcode"]
        a, b = e(inner[0]), e(inner[1])
        if op in OPS:
            return "(%s %s %s)" % (a, op, b)
        if op in ("/", "%"):
            return "(%s %s %s)" % (a, "//" if op == "/" else op, b)
        if op in ("&&", "||"):
            return "int(bool(%s) %s bool(%s))" % (a, "and" if op == "&&" else "or", b)
    if k == "UnaryOperator" and n["opcode"] in ("-", "+", "~", "!"):
        return "(%s%s)" % (n["opcode"], e(inner[0])) if n["opcode"] != "!" else "int(not (%s))" % e(inner[0])
    if k == "ConditionalOperator":
        return "((%s) if (%s) else (%s))" % (e(inner[1]), e(inner[0]), e(inner[2]))
    raise Broken("signature: expression of kind %s is not understood" % k)


def effective(gen, names):
    src = os.path.join(gen, "m.cc")
    open(src, "w").write("#include \"libcwd/config.h\"\n" + "".join("cwd_opt_%s=%s\n" % (n, n) for n in names))
    r = sh(["clang++", "-std=c++20", "-w", "-DCWDEBUG", "-E", "-P"] + includes(gen) + [src])
    out = []
    for n in names:
        m = re.search(r"^cwd_opt_%s ?= ?(.*)$" % n, r.stdout, re.M)
        v = (m.group(1) if m else n).replace("&&", " and ").replace("||", " or ").replace("!", " not ").strip()
        if not re.fullmatch(r"[\d\s()andort]+", v):
            raise Broken("option %s is not understood: %s" % (n, v))
        out.append(int(bool(eval(v))))
    return tuple(out)


def headers(gen, flags):
    """what the headers of the library consist of, without the configuration header itself"""
    src = os.path.join(gen, "h.cc")
    open(src, "w").write("#include \"cwd_sys.h\"\n#include <libcwd/debug.h>\n")
    r = sh(["clang++", "-std=c++20", "-w", "-DCWDEBUG", "-E"] + flags + includes(gen) + [src])
    if r.returncode:
        raise Broken("the headers cannot be preprocessed: " + r.stderr[:300])
    out, on = [], False
    for l in r.stdout.split("\n"):
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            on = m.group(1).startswith(os.path.join(REPO, "include"))
        elif on and l.strip():
            out.append(l.strip())
    return "\n".join(out)


def run(ctx):
    t = open(os.path.join(REPO, "include/libcwd/config.h.in")).read()
    opts = {}
    for m in re.finditer(r"^#\s*define\s+(\w+)[^\n]*@CW_CONFIG_(\w+)@", t, re.M):
        opts[m.group(2)] = m.group(1)
    for o in MUST:
        if o not in opts:
            raise Broken("anchor vanished: option " + o)
    names = sorted(opts)
    ver = ("vp_major", "vp_minor", "vp_revision")
    top = tempfile.mkdtemp(prefix="cfg", dir=BUILD)
    try:
        matters = set(MUST)
        base = None
        for o in [None] + names:
            gen = os.path.join(top, "h")
            over = {o: "1" if DEFAULTS.get(o, "0") == "0" else "0"} if o else {}
            if o and o != "DEBUG":
                over.setdefault("DEBUG", "0")
            gen_config(gen, **over)
            h = headers(gen, ["-D_GLIBCXX_DEBUG"] if o == "GLIBCXX_DEBUG" else [])
            if o is None:
                base = h
            elif h != base:
                matters.add(o)
            if o:
                ctx.count("options")
        key = [opts[o] for o in names if o in matters]
        configs = {}
        for combo in itertools.product("01", repeat=len(names)):
            gen = os.path.join(top, "c")
            over = dict(zip(names, combo))
            if over.get("GLIBCXX_DEBUG") == "1" and "GLIBCXX_DEBUG" not in matters:
                continue
            gen_config(gen, _version=ver, **over)
            eff = effective(gen, key)
            if eff in configs:
                continue
            configs[eff] = expr(ast_of(gen, SIG, over), gen, over)
            ctx.count("configurations")
    finally:
        shutil.rmtree(top, ignore_errors=True)
    where = "include/libcwd/config.h.in:%d" % (t[:t.find(SIG)].count("\n") + 1)
    # every version number in one configuration; then the configurations against each other
    vals = {}
    for eff, ex in configs.items():
        vals.setdefault(ex, []).append(eff)
    for ex, effs in vals.items():
        if len(effs) > 1:
            ctx.violation("signature|same", "the signature is the same although %s differ" % ", ".join(
                k for k, a, b in zip(key, effs[0], effs[1]) if a != b), where)
    N = 128
    f = {ex: eval("lambda vp_major, vp_minor, vp_revision: " + ex) for ex in vals}
    exs = list(vals)
    f0 = f[exs[0]]
    a0 = array("q", (f0(a, b, c) for c in range(N) for b in range(N) for a in range(N)))
    if max(a0) >= 1 << 31 or min(a0) < 0:
        ctx.violation("signature|overflow", "the signature overflows for versions that fit its fields", where)
    s = sorted(a0)
    dup = next((i for i in range(1, len(s)) if s[i] == s[i - 1]), None)
    if dup is not None:
        i = [i for i, v in enumerate(a0) if v == s[dup]][:2]
        ctx.violation("signature|version", "versions %s and %s have the same signature" % tuple(
            "%d.%d.%d" % (x % N, x // N % N, x // N // N) for x in i), where)
    else:
        gap = min(s[i] - s[i - 1] for i in range(1, len(s)))
        ctx.ok("%d version numbers have different signatures" % len(a0))
        # if configurations only shift the value by less than the smallest distance, they cannot meet
        shift = {}
        probe = [(a, b, c) for a in (0, 1, 2, 64, 127) for b in (0, 1, 64, 127) for c in (0, 1, 64, 127)]
        const = True
        for ex in exs:
            d = {f[ex](*p) - f0(*p) for p in probe}
            const = const and len(d) == 1 and affine_bits(ex)
            shift[ex] = d.pop()
        sv = sorted(shift.values())
        if const and len(set(sv)) == len(sv) and sv[-1] - sv[0] < gap:
            ctx.ok("%d configurations never share a value: offsets %s within a distance of %d" % (len(exs), sv, gap))
        else:
            seen = {}
            for ex in exs:
                g = f[ex]
                for c in range(N):
                    for b in range(N):
                        for a in range(N):
                            v = g(a, b, c)
                            if v in seen and seen[v] != ex:
                                e1, e2 = vals[seen[v]][0], vals[ex][0]
                                ctx.violation("signature|config", "configurations that differ in %s can have the same signature (version %d.%d.%d)" % (
                                    ", ".join(k for k, x, y in zip(key, e1, e2) if x != y), a, b, c), where)
                                break
                            seen[v] = ex
                        else:
                            continue
                        break
                    else:
                        continue
                    break
            if not ctx.violations:
                ctx.ok("%d configurations never share a value" % len(exs))
    startup(ctx)


def affine_bits(ex):
    """configuration bits are or-ed or added to a version part that leaves the lower bits free"""
    try:
        f = eval("lambda vp_major, vp_minor, vp_revision: " + ex)
        lo = f(0, 0, 0)
        u = [f(1, 0, 0) - lo, f(0, 1, 0) - lo, f(0, 0, 1) - lo]
        if min(u) <= 0:
            return False
        k = (u[0] & -u[0])
        if any(x % k for x in u) or lo >= k or lo < 0:
            return False
        # "|" and "&" only occur with constants below the version part
        return not re.search(r"[&^]|>>|//|%|if|int\(", ex.replace("& 18446744073709551615", "").replace("& 4294967295", ""))
    except Exception:
        return False


class Start(Sym):
    def known(self, fl, st, ins, args, c):
        if c.endswith("get_config_signature_lib_c"):
            t = ("o", "lib")
            fl.wd[t] = 64
            self.event(st, c)
            return ("val", t)
        if self.never(c):
            self.event(st, c)
            self.ends.append((st.copy(), ins))
            st.dead = True
            return ("pure",)
        return None

    def never(self, c):
        return c in self.fatal


class Never(Sym):
    def known(self, fl, st, ins, args, c):
        if re.search(r"::fatal_finish$|^abort$|^_Exit$|^exit$", c):
            st.dead = True
            self.event(st, c)
            return ("pure",)
        return None


def startup(ctx):
    prog = inl(dump=[r"^w_main_reached$", r"^libcwd::get_config_signature_lib_c$", r"^libcwd::\w+_check_failed$"], witnesses=["config.cc"],
               noinline=[r"^libcwd::get_config_signature_lib_c$", r"^libcwd::internal_main_reached$", r"^libcwd::\w+_failed$",
                         r"^libcwd::DebugObject_ThreadSpecificData::", r"::instance$", r"ST_initialize_globals", r"^libcwd::operator<<", r"^std::"])
    rp = raw()
    fatal = set()
    fn = prog.one("w_main_reached")
    callees = {i.callee for i in fn.calls() if i.callee and i.callee.startswith("libcwd::")}
    for n in sorted(callees):
        g = [f for f in rp.fns.values() if f.base == n and f.blocks]
        if not g or n.endswith(("get_config_signature_lib_c", "internal_main_reached")):
            continue
        h = [f for f in prog.fns.values() if f.base == n and f.blocks] or g
        r = Never()
        fl = analyse(h[0], r)
        ctx.analysed(h[0])
        if not r.rets:
            fatal.add(n)
            ctx.count("fatal reports")
            ctx.ok("%s never returns" % n)
    if not any(c.endswith("get_config_signature_lib_c") for c in callees):
        ctx.violation("startup|lib", "the startup check does not ask the library for its signature", fn.where())
        return
    r = Start()
    r.fatal = fatal
    fl = analyse(fn, r)
    ctx.analysed(fn)
    lib = ("o", "lib")
    hv = None
    for st, ins, _ in r.rets:
        ctx.count("startup paths")
        ev = [e[0] for e in r.events(st)]
        s = fl.possible(st, lib, 64)
        if not ev or not ev[0].endswith("get_config_signature_lib_c"):
            ctx.violation("startup|order", "the startup check calls %s before it compares the signatures" % (ev[0] if ev else "nothing"), ins.where())
        elif not (len(s) == 1 and s[0][0] == s[0][1]):
            ctx.violation("startup|accept", "the startup check accepts libraries with a different signature", ins.where(), st.path())
        else:
            hv = s[0][0]
            ctx.ok("only a library with signature %d is accepted" % hv)
        if not any(e.endswith("internal_main_reached") for e in ev):
            ctx.violation("startup|reached", "an accepted library is not told that main was reached", ins.where())
    for st, ins in r.ends:
        ctx.count("startup paths")
        ev = [e[0] for e in r.events(st)]
        if ev[0].endswith("get_config_signature_lib_c") and len(ev) == 2:
            s = fl.possible(st, lib, 64)
            if any(a <= (hv or 0) <= b for a, b in s) and hv is not None:
                ctx.violation("startup|refuse", "the startup check refuses a library with the same signature", ins.where(), st.path())
            else:
                ctx.ok("another signature ends in " + ev[1])
        else:
            ctx.violation("startup|order", "the startup check does something else before it refuses: %s" % ev[:3], ins.where())
    if not r.ends:
        ctx.violation("startup|never", "the startup check never refuses", fn.where())
    g = [f for f in rp.fns.values() if f.base == "libcwd::get_config_signature_lib_c" and f.blocks]
    if not g:
        ctx.violation("startup|libfn", "the library has no signature", fn.where())
        return
    g = g[0]
    if "/src/" not in os.path.join("/", g.loc()) and not g.loc().startswith("src/"):
        ctx.violation("startup|libfn", "the library's signature is compiled into the program", g.where())
    r = Sym()
    h = [f for f in prog.fns.values() if f.base == g.base and f.blocks] or [g]
    fl = analyse(h[0], r)
    ctx.analysed(h[0])
    for st, ins, v in r.rets:
        c = v[1] if v is not None and v[0] == "c" else None
        if c is None and v is not None and v[0] == "m0":
            gg = prog.globals.get(v[1][1], {}) if v[1][0] == "g" else {}
            i = gg.get("init")
            c = i.get("c") if isinstance(i, dict) else i
            if not gg.get("const", True):
                c = None
        if c is None or (hv is not None and c != hv):
            ctx.violation("startup|libval", "the library does not return the signature of the headers it was built with (%s)" % (c,), ins.where())
        else:
            ctx.ok("the library's signature is the constant %d" % c)
