"""Front end of the analyses: builds /repo's current sources to LLVM bitcode (clang, never run),
links and inlines them with tool/cwdir and loads the result as a graph."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "18"


class Broken(Exception):
    """The analysis can not be carried out (anchor vanished, source does not compile...)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


# ----------------------------------------------------------------------------- tool

def tool():
    src = os.path.join(VERIF, "tool", "cwdir.cc")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    exe = os.path.join(BUILD, "cwdir-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    flags = sh(["llvm-config-" + LLVM, "--cxxflags"]).stdout.replace("-fno-exceptions", "").split()
    libs = sh(["llvm-config-" + LLVM, "--ldflags", "--libs", "core", "irreader", "linker", "passes",
               "demangle", "support", "bitreader"]).stdout.split()
    tmp = exe + ".%d" % os.getpid()
    r = sh(["clang++", "-O1"] + flags + ["-fexceptions", src, "-o", tmp] + libs)
    if r.returncode:
        raise Broken("cannot build tool: " + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


# ----------------------------------------------------------------------------- configuration

DEFAULTS = dict(GLIBCXX_DEBUG="0", LOCATION="1", DEBUG="0", DEBUGOUTPUT="0", DEBUGT="0")


def version():
    t = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"project\(libcwd\s+VERSION\s+(\d+)\.(\d+)\.(\d+)", t)
    if not m:
        raise Broken("no version in CMakeLists.txt")
    return m.groups()


def gen_config(dst, _version=None, **over):
    """Instantiate the *.in headers like the project's build does."""
    opt = dict(DEFAULTS)
    opt.update(over)
    ma, mi, re_ = _version or version()
    sub = {"CW_CONFIG_" + k: v for k, v in opt.items()}
    sub.update(VERSION_MAJOR=ma, VERSION_MINOR=mi, VERSION_REVISION=re_,
               CW_CONFIG_BUILTIN_RETURN_ADDRESS_OFFSET="-1", libcwd_datadir="/usr/local/share",
               CW_PATH_PROG_PS="", PS_ARGUMENT="", CW_SYS_TYPEDEFS="", CW_SYS_REDEFINES_FIX="")
    have = {"HAVE_PWD_H", "HAVE_SYS_RESOURCE_H", "HAVE_DLOPEN", "HAVE__RTLD_GLOBAL", "HAVE_GETEGID",
            "HAVE_GETGROUPS", "HAVE_GETGID", "HAVE_BUILTIN_EXPECT"}

    def inst(src, out):
        t = open(os.path.join(REPO, src)).read()

        def cd(m):
            n = m.group(2)
            if m.group(1) == "01":
                return "#define %s %d" % (n, n in have)
            return "#define %s%s" % (n, m.group(3)) if n in have else "/* #undef %s */" % n
        t = re.sub(r"#cmakedefine(01)?[ \t]+(\w+)([^\n]*)", cd, t)
        t = re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), m.group(0)), t)
        p = os.path.join(dst, out)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t)
    inst("include/cmake-config.h.in", "config.h")
    inst("include/libcwd/config.h.in", "libcwd/config.h")
    inst("include/cwd_sys.h.in", "cwd_sys.h")


def repo_hash(extra=()):
    h = hashlib.sha1()
    for root in ("src", "include", "."):
        base = os.path.join(REPO, root)
        for d, ds, fs in os.walk(base):
            ds.sort()
            if root == ".":
                ds[:] = []
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    h.update(os.path.relpath(p, REPO).encode())
                    h.update(open(p, "rb").read())
    for root in ("stub", "witness", "tool", "lint"):
        for d, ds, fs in os.walk(os.path.join(VERIF, root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".pyc",)):
                    continue
                h.update(open(os.path.join(d, f), "rb").read()) if root != "lint" or f == "core.py" else None
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:16]


def includes(gen):
    return ["-I" + gen, "-I" + os.path.join(gen, "libcwd"), "-I" + os.path.join(VERIF, "stub"),
            "-I" + os.path.join(REPO, "include"), "-I" + REPO]


BASE_FLAGS = ["-std=c++20", "-w", "-DCWDEBUG", "-DVERSION=\"2.0.1\"", "-DLIBCWD_STUB_OPAQUE"]

LIB_TUS = None


def lib_tus():
    """The library's translation units, from the project's own source lists."""
    out = []
    for sub in ("src", "src/utils"):
        t = open(os.path.join(REPO, sub, "CMakeLists.txt")).read()
        for f in re.findall(r'"([\w./]+\.cxx)"', t):
            out.append(os.path.join(REPO, sub, f))
    if len(out) < 15:
        raise Broken("only %d library sources found in src/CMakeLists.txt" % len(out))
    return out


def compile_bc(src, out, gen, extra=()):
    cmd = (["clang++"] + BASE_FLAGS +
           ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fstandalone-debug", "-fno-discard-value-names",
            "-flto=full", "-fwhole-program-vtables", "-fvisibility=hidden", "-fPIC"] +
           includes(gen) + list(extra) + ["-c", src, "-o", out])
    r = sh(cmd)
    if r.returncode:
        raise Broken("%s does not compile: %s" % (src, r.stderr[:1500]))


class Program:
    """A linked and exported program."""

    def __init__(self, data):
        self.decls = data["decls"]
        self.fns = {}
        self.bybase = {}
        self.records = data["records"]
        self.structs = data["structs"]
        self.globals = {g["name"]: g for g in data["globals"]}
        self._recname = {}
        for k, r in self.records.items():
            self._recname.setdefault(r["name"], r)
            b = r["name"].split("<")[0]
            self._recname.setdefault(b, r)
        for f in data["functions"]:
            fn = Fn(self, f)
            self.fns[fn.name] = fn
            self.bybase.setdefault(fn.base, []).append(fn)

    def base(self, mangled):
        d = self.decls.get(mangled)
        return d[0] if d else mangled

    def dem(self, mangled):
        d = self.decls.get(mangled)
        return d[1] if d else mangled

    def find(self, base):
        return self.bybase.get(base, [])

    def one(self, base, pred=None):
        l = [f for f in self.find(base) if pred is None or pred(f)]
        if not l:
            raise Broken("anchor vanished: no function %s in the analysed program" % base)
        return l[0]

    def match(self, rx):
        r = re.compile(rx)
        return [f for f in self.fns.values() if r.search(f.base)]

    # -- field names
    def member_at(self, recname, off):
        """Name of the member of the record at byte offset `off' (nested: a.b)."""
        r = self._recname.get(recname) or self._recname.get(recname.split("<")[0])
        names = []
        guard = 0
        while r and guard < 12:
            guard += 1
            best = None
            for m in r["members"]:
                n, o, ty, kind, sz = m
                if o <= off < o + max(sz, 1):
                    best = m
                    if n != "<base>":
                        break
            if not best:
                break
            n, o, ty, kind, sz = best
            if n != "<base>":
                names.append(n)
            off -= o
            if kind == "" and ty in self.records:
                r = self.records[ty]
                continue
            break
        return ".".join(names)

    def offset(self, recname, member):
        """Byte offset of a (possibly inherited) member, 'a.b' for nested ones."""
        r = self._recname.get(recname)
        if r is None:
            raise Broken("anchor vanished: record %s" % recname)
        o = self._offset(r, member)
        if o is None:
            raise Broken("anchor vanished: member %s::%s" % (recname, member))
        return o

    def size(self, recname):
        r = self._recname.get(recname)
        if r is None:
            raise Broken("anchor vanished: record %s" % recname)
        return r["size"]

    def _offset(self, r, member, depth=0):
        head, _, rest = member.partition(".")
        for n, o, ty, kind, sz in r["members"]:
            if n == head:
                if not rest:
                    return o
                sub = self.records.get(ty)
                if sub is None:
                    return None
                x = self._offset(sub, rest, depth + 1)
                return None if x is None else o + x
        for n, o, ty, kind, sz in r["members"]:
            if n == "<base>" and ty in self.records and depth < 12:
                x = self._offset(self.records[ty], member, depth + 1)
                if x is not None:
                    return o + x
        return None

    def field(self, path):
        """'class.X|i.j' -> 'X::member.member'"""
        if not path or "|" not in path:
            return None
        st, idx = path.split("|")
        lay = self.structs.get(st)
        name = re.sub(r"^(class|struct|union)\.", "", st)
        name = re.sub(r"\.base$", "", name)
        name = re.sub(r"\.\d+$", "", name)
        if lay is None:
            # the struct type is no longer used by any instruction: fall back on the declaration order
            r = self._recname.get(name) or self._recname.get(name.split("<")[0])
            if r and "." not in idx and int(idx) < len(r["members"]):
                m = r["members"][int(idx)]
                return name + "::" + (self.member_at(name, m[1]) or idx)
            return name + "|" + idx
        off = 0
        cur = lay
        for i in idx.split("."):
            if cur is None or int(i) >= len(cur):
                return name + "|" + idx
            off += cur[int(i)][0]
            t = cur[int(i)][1]
            m = re.match(r'%"?([^"]*)"?$', t)
            cur = self.structs.get(m.group(1)) if m else None
        mem = self.member_at(name, off)
        return name + "::" + (mem or idx)


class Ins:
    __slots__ = ("d", "fn", "bb", "idx")

    def __init__(self, d, fn, bb, idx):
        self.d, self.fn, self.bb, self.idx = d, fn, bb, idx

    @property
    def id(self):
        return self.d["i"]

    @property
    def op(self):
        return self.d["op"]

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    @property
    def ops(self):
        return self.d.get("ops", [])

    @property
    def callee(self):
        """Demangled base name of the called function (virtual calls: the declared function)."""
        c = self.d.get("callee")
        if c is not None:
            return self.fn.prog.base(c)
        v = self.d.get("vcall")
        if v:
            return "virtual " + v
        return None

    def where(self):
        l = self.d.get("loc")
        if not l:
            return self.fn.base
        f, n, fn = l[0]
        return "%s:%d" % (f.replace(REPO + "/", ""), n)

    def is_call(self):
        return self.op in ("call", "invoke")

    def __repr__(self):
        return "<%s %s %s>" % (self.op, self.callee or self.d.get("fld", ""), self.where())


class Fn:
    def __init__(self, prog, d):
        self.prog, self.d = prog, d
        self.name, self.dem, self.base = d["name"], d["dem"], d["base"]
        self.args = d["args"]
        self.ins = {}
        self.blocks = {}
        self.order = []
        for b in d["blocks"]:
            l = []
            for k, i in enumerate(b["ins"]):
                x = Ins(i, self, b["id"], k)
                self.ins[x.id] = x
                l.append(x)
            self.blocks[b["id"]] = l
            self.order.append(b["id"])
        self.entry = self.order[0]
        self.preds = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succs(b):
                self.preds[s].append(b)

    def term(self, b):
        return self.blocks[b][-1]

    def succs(self, b):
        t = self.term(b)
        if t.op == "br":
            return list(t.get("succ"))
        if t.op == "switch":
            return list(dict.fromkeys([c[1] for c in t.get("cases")] + [t.get("dflt")]))
        if t.op == "invoke":
            return [t.get("normal"), t.get("unwind")]
        return []

    def instrs(self):
        for b in self.order:
            yield from self.blocks[b]

    def calls(self, rx=None):
        r = re.compile(rx) if rx else None
        for i in self.instrs():
            if i.is_call() and (r is None or (i.callee and r.search(i.callee))):
                yield i

    def arg_index(self, name):
        for k, a in enumerate(self.args):
            if a[0] == name:
                return k
        return None

    def where(self):
        return self.loc()

    def loc(self):
        return "%s:%s" % (self.d.get("file", "?").replace(REPO + "/", ""), self.d.get("line", "?"))

    # -- dominators (of blocks)
    def dominators(self):
        if hasattr(self, "_dom"):
            return self._dom
        order = self.rpo()
        idx = {b: i for i, b in enumerate(order)}
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in self.preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self._dom = idom
        return idom

    def rpo(self):
        if hasattr(self, "_rpo"):
            return self._rpo
        seen, out = set(), []
        stack = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                out.append(b)
                stack.pop()
        self._rpo = out[::-1]
        return self._rpo

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.bb == b.bb:
            return a.idx < b.idx
        dom = self.dominators()
        x = b.bb
        if x not in dom or a.bb not in dom:
            return False
        while x != dom[x]:
            x = dom[x]
            if x == a.bb:
                return True
        return False

    # -- values
    def const(self, v):
        if isinstance(v, dict):
            if "c" in v:
                return v["c"]
            if "n" in v:
                return 0
        return None

    def string(self, v):
        if isinstance(v, dict):
            if "s" in v:
                return v["s"]
            if v.get("ce") == "gep":
                return self.string(v["b"])
        return None

    def defi(self, v):
        return self.ins.get(v) if isinstance(v, int) else None

    def strip(self, v):
        """Look through casts, expect, freeze, launder."""
        while True:
            i = self.defi(v)
            if i is None:
                return v
            if i.op in ("bitcast", "freeze", "addrspacecast", "zext", "sext", "trunc"):
                v = i.ops[0]
                continue
            if i.is_call() and i.get("callee", "").startswith(("llvm.expect", "llvm.launder", "llvm.strip")):
                v = i.ops[0]
                continue
            return v

    def path(self, v, depth=0):
        """Symbolic access path of a value."""
        if depth > 14:
            return "..."
        if isinstance(v, dict):
            if "c" in v:
                return str(v["c"])
            if "n" in v:
                return "null"
            if "s" in v and "g" in v:
                return json.dumps(v["s"])
            if "g" in v:
                return "@" + self.prog.globals.get(v["g"], {}).get("dem", v["g"])
            if "f" in v:
                return "&" + self.prog.base(v["f"])
            if v.get("ce") == "gep":
                b = self.path(v["b"], depth + 1)
                return "%s+%s" % (b, v.get("o", "?"))
            return "const"
        if v < len(self.args):
            return "$" + (self.args[v][0] or str(v))
        i = self.ins.get(v)
        if i is None:
            return "?"
        op = i.op
        if op == "getelementptr":
            b = self.path(i.ops[0], depth + 1)
            p = i.get("path")
            if p:
                f = self.prog.field(p)
                s = b + "." + (f.split("::")[-1] if f else "?")
            else:
                s = b
            # variable/array part
            if i.get("off") is None:
                vo = i.get("voff") or []
                s += "[" + ",".join(self.path(x[0], depth + 1) for x in vo) + "]"
            elif not p and i.get("off"):
                s += "+%d" % i.get("off")
            return s
        if op == "load":
            return "*" + self.path(i.ops[0], depth + 1)
        if op == "alloca":
            return "%" + i.get("nm", str(v))
        if op in ("bitcast", "freeze", "addrspacecast", "zext", "sext", "trunc"):
            return self.path(i.ops[0], depth + 1)
        if i.is_call():
            c = i.callee or "indirect"
            if i.get("callee", "").startswith(("llvm.expect", "llvm.threadlocal", "llvm.launder")):
                return self.path(i.ops[0], depth + 1)
            return "%s(%s)" % (c, ",".join(self.path(o, depth + 1) for o in i.ops))
        if op == "phi":
            return "phi#%d" % v
        if op == "icmp":
            return "(%s %s %s)" % (self.path(i.ops[0], depth + 1), i.get("pred"), self.path(i.ops[1], depth + 1))
        if op == "select":
            return "(%s?%s:%s)" % tuple(self.path(o, depth + 1) for o in i.ops)
        return "%s(%s)" % (op, ",".join(self.path(o, depth + 1) for o in i.ops))

    def fld(self, i):
        """Field name accessed by load/store i ('X::member'), or None."""
        f = i.get("fld")
        return self.prog.field(f) if f else None


# ----------------------------------------------------------------------------- build + load

ALWAYS_OPAQUE = []


def build(mode, cfg_lines, witnesses=(), tus=None, over=None, tag=""):
    """Compile, link and export.  cfg_lines: inline/noinline/dump lines of the tool."""
    over = over or {}
    exe = tool()
    key = repo_hash((mode, tuple(cfg_lines), tuple(witnesses), tuple(tus or ()), sorted(over.items()), tag, REPO))
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    cjson = os.path.join(cache, key + ".json")
    if not os.path.exists(cjson):
        work = tempfile.mkdtemp(prefix="w", dir=BUILD)
        try:
            srcs = [(s, ()) for s in (lib_tus() if tus is None else [os.path.join(REPO, t) for t in tus])]
            srcs += [(os.path.join(VERIF, "witness", w), ()) if isinstance(w, str) else
                     (os.path.join(VERIF, "witness", w[0]), tuple(w[1:])) for w in witnesses]
            bk = repo_hash(("bc", sorted(over.items()), REPO))
            bcd = os.path.join(cache, "bc-" + bk)
            os.makedirs(bcd, exist_ok=True)
            # the generated config.h lives where the bitcode lives: what was compiled names it as the place of the
            # functions that config.h defines
            gen = os.path.join(bcd, "gen")
            if not os.path.exists(gen):
                t = os.path.join(work, "gen")
                gen_config(t, **over)
                try:
                    os.rename(t, gen)
                except OSError:
                    if not os.path.isdir(gen):
                        raise
            outs = [os.path.join(bcd, re.sub(r"\W", "_", " ".join((s[0],) + tuple(s[1]))) + ".bc") for s in srcs]

            def one(a):
                (s, extra), o = a
                if not os.path.exists(o):
                    compile_bc(s, o + ".tmp%d" % os.getpid(), gen, extra)
                    os.rename(o + ".tmp%d" % os.getpid(), o)
            with cf.ThreadPoolExecutor(8) as ex:
                list(ex.map(one, zip(srcs, outs)))
            conf = os.path.join(work, "conf")
            with open(conf, "w") as f:
                for p in (REPO + "/src", REPO + "/include", REPO + "/debug.h", VERIF + "/stub", VERIF + "/witness", gen):
                    f.write("repo %s\n" % p)
                for l in cfg_lines:
                    f.write(l + "\n")
            tmp = os.path.join(work, "out.json")
            r = sh([exe, tmp, mode, conf] + outs)
            if r.returncode:
                raise Broken("cwdir failed: " + r.stderr[-1500:])
            os.rename(tmp, cjson)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return Program(json.load(open(cjson)))


STD_INLINE = [
    r"inline ^std::(lock_guard|unique_lock|scoped_lock|atomic|__atomic_base|__atomic_impl|unique_ptr|__uniq_ptr_impl|__uniq_ptr_data)\b",
    r"inline ^std::(forward|move|addressof|__addressof|exchange|__exchange|swap|as_const|get|min|max|clamp|__exception_ptr)\b",
    r"inline ^std::(operator&|operator\||tuple|_Tuple_impl|_Head_base|__get_helper|__invoke|pair)",
    r"inline ^std::(__get_|_Head|default_delete|function_ref)",
    r"inline ^std::(initializer_list|optional|_Optional_\w+|basic_string_view|begin|end|data|size)\b",
    r"inline ^std::(find_if|__find_if|any_of|all_of|none_of|for_each|__iterator_category)\b",
]


def raw(**kw):
    return build("raw", [], **kw)


def inl(dump, noinline=(), inline=(), **kw):
    cfg = list(STD_INLINE) + ["inline " + r for r in inline] + ["noinline " + r for r in noinline] + ["dump " + r for r in dump]
    return build("inl", cfg, **kw)


def show(fn, out=sys.stdout):
    """Readable listing (debugging aid)."""
    print("== %s   [%s]" % (fn.dem, fn.loc()), file=out)
    for b in fn.order:
        print(" bb%d:  preds=%s" % (b, fn.preds[b]), file=out)
        for i in fn.blocks[b]:
            if i.op in ("getelementptr",):
                continue
            if i.is_call() and i.get("callee", "").startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.type")):
                continue
            s = i.op
            if i.op == "load":
                s = "load %s" % fn.path(i.ops[0])
            elif i.op == "store":
                s = "store %s <- %s" % (fn.path(i.ops[1]), fn.path(i.ops[0]))
            elif i.is_call():
                s = "%s %s(%s)" % (i.op, i.callee, ", ".join(fn.path(o) for o in i.ops))
                if i.op == "invoke":
                    s += " -> bb%d / unwind bb%d" % (i.get("normal"), i.get("unwind"))
            elif i.op == "br":
                s = "br %s %s" % (fn.path(i.get("cond")) if i.get("cond") is not None else "", i.get("succ"))
            elif i.op == "switch":
                s = "switch %s %s else %s" % (fn.path(i.get("cond")), i.get("cases"), i.get("dflt"))
            elif i.op == "phi":
                s = "phi " + ", ".join("%s from bb%d" % (fn.path(a), b2) for a, b2 in i.get("in"))
            else:
                s = "%s %s" % (i.op, ", ".join(fn.path(o) for o in i.ops))
            print("   %5d %-90s ; %s" % (i.id, s, i.where()), file=out)


if __name__ == "__main__":
    print(tool())
