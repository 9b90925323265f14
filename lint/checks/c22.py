"""What the dlopen() and dlclose() wrappers do to the count of every handle.

Both wrappers are followed on every path: the real function succeeds or fails, the handle has a record or not, another thread
added one in between or not, the count is any number, the handle was or was not opened never to be deleted.  The real function,
looked up under its own name, is called exactly once with the wrapper's own arguments and what it returns is returned.  A
successful open adds one to the count and the flags to the flags, or makes a record with a count of one, the flags and the object
file; a successful close subtracts one, and if that leaves none - and only then - the record is removed and the object file
unregistered and what is left of it deleted, once each and after the lock on its data was released, unless it was opened
never to be deleted: then the record has to stay, because a later open and close of the same handle would forget it."""
from core import *
from flow import Rule, analyse, C

FLOORS = {"paths": 12, "real functions": 2}
TECHNIQUE = "path-sensitive typestate of the dlopen and dlclose wrappers over an abstract record"
NOTE = "the dynamic loader's own counting, objects loaded as dependencies and a dlopen of the main program (no name) are not covered; what unregistering does is decided under C19 and C20"
REC = "DynamicLoaderRecord::"
V, R, H = ("V",), ("R",), ("H",)


class Base(Rule):
    merge = False
    max_states = 20000
    nodelete = None

    def __init__(self, ctx, fn, names):
        self.ctx, self.fn, self.names = ctx, fn, names
        self.bad, self.n, self.fields = {}, 0, {"0": "count", "1": "flags", "2": "object"}

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), st.path()))

    def keep(self, fl, t):
        return True

    def put(self, st, **kw):
        d = dict(st.p)
        d.update(kw)
        st.p = tuple(sorted(d.items(), key=lambda x: x[0]))

    def get(self, st, k):
        return dict(st.p)[k]

    def start(self, fl, st):
        st.p = ()
        for t, w in ((V, 64), (R, 64), (("END",), 64), (H, 64), (("F", "count"), 32), (("F", "flags"), 32), (("F", "object"), 64), (("F", "err"), 32), (("F", "obs"), 64), (("F", "file"), 64), (("F", "real"), 64)):
            fl.wd[t] = w
        fl.assume(st, fl.mk_icmp("ne", R, ("END",), 64), True)
        fl.assume(st, fl.mk_icmp("ne", ("F", "object"), C(0), 64), True)
        self.put(st, real=0, found=None, delta=(), erased=0, unreg=0, deleted=0, flags=False, made=None, file=None, info=None, locks=0, rec=(), unlocked=False)

    def fork(self, st, *alts):
        out = []
        for v, kw in alts:
            s = st.copy()
            self.put(s, **kw)
            out.append((s, v))
        return out

    def field(self, f):
        return self.fields.get((f or "").rsplit(REC, 1)[-1]) if REC in (f or "") else None

    def base(self, fl, a):
        return fl.root(a) in (V, R)

    def load(self, fl, st, ins, a, f):
        if a[0] == "g" and a[1] in self.names:
            return ("val", ("F", "real"))
        k = self.field(f)
        if k and self.base(fl, a):
            if not self.get(st, "found"):
                self.report(st, ins, "uses a record that was not found")
            if self.get(st, "erased"):
                self.report(st, ins, "uses a record after it was removed")
            d = self.get(st, "delta")
            t = ("F", k)
            if k == "count" and d:
                return ("val", d[-1])
            if k == "flags" and self.nodelete is not None:
                return ("val", C(-1) if self.nodelete else C(-1 & ~0x1000))
            return ("val", t)

    def store(self, fl, st, ins, a, v, f):
        k = self.field(f)
        if k and fl.root(a)[0] == "al":
            i = f.rsplit(REC, 1)[-1]
            if v == ("F", "file"):
                self.fields[i] = "object"
            elif v == ("a", 1):
                self.fields[i] = "flags"
            elif v[0] == "c" and self.fields.get(i) != "object":
                self.fields[i] = "count"
            self.put(st, rec=tuple(sorted(dict(self.get(st, "rec") + ((self.fields[i], v),)).items())))
        elif k and self.base(fl, a):
            self.change(fl, st, ins, k, v)

    def change(self, fl, st, ins, k, v):
        if self.get(st, "erased"):
            self.report(st, ins, "changes a record after it was removed")
        if k == "count":
            self.put(st, delta=self.get(st, "delta") + (v,))
        elif k == "flags":
            t = ("F", "flags")
            ok = v[0] == "op" and v[1] == "or" and {v[2], v[3]} == {t, ("a", 1)} or v[0] == "c" and self.nodelete is not None
            if not ok:
                self.report(st, ins, "does not keep the flags that the handle was opened with")
            self.put(st, flags=True)
        else:
            self.report(st, ins, "changes the object file of a record")

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.startswith("llvm."):
            return ("pure",)
        if ins.callee is None:
            return self.real(fl, st, ins, args)
        if "_M_valptr" in c:
            return ("val", V)
        if c.startswith("cwd_wrlock"):
            self.put(st, locks=self.get(st, "locks") + 1)
        elif c.startswith("cwd_wrunlock"):
            self.put(st, locks=max(0, self.get(st, "locks") - 1))
        m = re.search(r"std::map<.*" + r"DynamicLoaderRecord.*>::(\w+)(\[.*\])?(<.*)?$", c)
        if m:
            n = m.group(1)
            if n in ("map", "~map"):
                return None
            if not self.get(st, "locks"):
                self.report(st, ins, "uses the map without its lock")
            if not self.get(st, "real"):
                self.report(st, ins, "looks for the record before the real function was called")
            if n in ("end", "cend"):
                return ("val", ("END",))
            if n == "find":
                return self.fork(st, (R, dict(found=True)), (("END",), dict(found=False)))
            if n in ("emplace", "try_emplace", "insert"):
                yes = ("agg", (((0,), R), ((1,), C(1))))
                no = ("agg", (((0,), R), ((1,), C(0))))
                return self.fork(st, (yes, dict(found=True, made=n)), (no, dict(found=True)))
            if n == "erase":
                if args[1] != R and args[1][0] != "al":
                    self.report(st, ins, "removes another record")
                self.put(st, erased=self.get(st, "erased") + 1)
                return ("pure",)
            raise Broken("the map of handles is used in an unknown way: %s" % n)
        return self.event(fl, st, ins, c, args)

    def event(self, fl, st, ins, c, args):
        return None

    def real(self, fl, st, ins, args):
        want = [("a", i) for i in range(len(args))]
        if args != want and list(args) != want:
            self.report(st, ins, "does not pass its own arguments on")
        if self.get(st, "real"):
            self.report(st, ins, "calls the real function twice")
        return self.outcome(fl, st)

    def counted(self, fl, st, d):
        """the count of an existing record changed by d exactly"""
        x = self.get(st, "delta")
        return bool(x) and x[-1] == fl.mk_add(("F", "count"), d)


class Open(Base):
    def outcome(self, fl, st):
        fl.wd[H] = 64
        out = self.fork(st, (H, dict(real=True)), (C(0), dict(real=False)))
        fl.assume(out[0][0], fl.mk_icmp("ne", H, C(0), 64), True)
        self.put(out[1][0], real="failed")
        return out

    def load(self, fl, st, ins, a, f):
        if a == ("a", 0):
            fl.wd[("F", "char")] = 8
            return ("val", ("F", "char"))
        return super().load(fl, st, ins, a, f)

    def event(self, fl, st, ins, c, args):
        if c.startswith("dlinfo"):
            return self.fork(st, (C(0), dict(info=True)), (C(-1), dict(info=False)))
        if c.endswith("register_object_file_at_lbase"):
            out = self.fork(st, (("F", "file"), dict(file=True)), (C(0), dict(file=False)))
            fl.assume(out[0][0], fl.mk_icmp("ne", ("F", "file"), C(0), 64), True)
            return out

    def ret(self, fl, st, ins, v):
        self.n += 1
        g = dict(st.p)
        if not g["real"]:
            self.report(st, ins, "does not call the real function")
            return
        if v != (H if g["real"] is True else C(0)):
            self.report(st, ins, "does not return what the real function returned")
        if g["erased"]:
            self.report(st, ins, "removes a record")
        if g["real"] is not True:
            if g["delta"] or g["made"]:
                self.report(st, ins, "counts a failed dlopen")
            return
        if g["made"]:
            r = dict(g["rec"])
            if g["delta"]:
                self.report(st, ins, "counts a new handle twice")
            if g["made"] == "emplace" and (r.get("count") != C(1) or r.get("object") != ("F", "file")):
                self.report(st, ins, "makes a record without a count of one and its object file")
            if g["made"] == "emplace" and r.get("flags") != ("a", 1):
                self.report(st, ins, "makes a record without the flags of the handle")
        elif g["found"]:
            if not self.counted(fl, st, 1):
                self.report(st, ins, "does not count a handle that has a record")
            elif len(g["delta"]) > 1:
                self.report(st, ins, "counts a handle twice")
            if not g["flags"]:
                self.report(st, ins, "forgets the flags of a handle that has a record")
        else:
            if g["delta"]:
                self.report(st, ins, "changes a record that does not exist")
            named = not (fl.possible(st, ("a", 0), 64) == ((0, 0),) or ("F", "char") in fl.wd and fl.possible(st, ("F", "char"), 8) == ((0, 0),))
            if named and g["found"] is None:
                self.report(st, ins, "does not look for the record of a handle")
            elif named and g["info"] is not False and g["file"] is not False:
                t = ("and", ("a", 1), 4)         # RTLD_NOLOAD
                q = st.facts.get(t, ((0, 4),))
                if not any(a <= 0 <= b for a, b in q):
                    self.report(st, ins, "does not count the first dlopen of a handle with RTLD_NOLOAD")
                else:
                    self.report(st, ins, "does not count the first dlopen of a handle")


class Close(Base):
    def outcome(self, fl, st):
        out = self.fork(st, (C(0), dict(real=True)), (("F", "err"), dict(real="failed")))
        fl.assume(out[1][0], fl.mk_icmp("ne", ("F", "err"), C(0), 32), True)
        return out

    def event(self, fl, st, ins, c, args):
        if c.endswith("::unregister_object_file_ranges"):
            if args[1] != ("F", "object"):
                self.report(st, ins, "unregisters another object file")
            self.put(st, unreg=self.get(st, "unreg") + 1)
            return ("val", ("F", "obs"))
        if c in ("operator delete", "operator delete(void*)") or c.startswith("operator delete"):
            if args[0] != ("F", "obs"):
                return ("pure",)
            if self.get(st, "locks"):
                self.report(st, ins, "deletes the object file while its data is locked")
            self.put(st, deleted=self.get(st, "deleted") + 1)
            return ("pure",)
        if c.endswith("::~ObjectFile"):
            return ("pure",)

    def ret(self, fl, st, ins, v):
        self.n += 1
        g = dict(st.p)
        if not g["real"]:
            self.report(st, ins, "does not call the real function")
            return
        if v != (C(0) if g["real"] is True else ("F", "err")):
            self.report(st, ins, "does not return what the real function returned")
        did = g["erased"] or g["unreg"] or g["deleted"]
        if g["real"] is not True:
            if g["delta"] or did:
                self.report(st, ins, "uncounts a failed dlclose")
            return
        if g["found"] is None:
            self.report(st, ins, "does not look for the record of the handle")
        if not g["found"]:
            if g["delta"] or did:
                self.report(st, ins, "changes a record that does not exist")
            return
        if not self.counted(fl, st, -1) or len(g["delta"]) != 1:
            self.report(st, ins, "does not uncount the handle once")
            return
        # a handle that could be closed successfully was open: its count was at least one
        q = tuple((max(a, 1), min(b, 0x7fffffff)) for a, b in fl.possible(st, ("F", "count"), 32) if b >= 1 and a <= 0x7fffffff)
        last = True if q == ((1, 1),) else None if any(a <= 1 <= b for a, b in q) else False
        if last is None and self.nodelete and not did:
            pass                        # right for a last close and for another
        elif last is None:
            self.report(st, ins, "does not look whether this was the last close")
        elif not last:
            if did:
                self.report(st, ins, "forgets a handle that is still open")
        elif self.nodelete:
            if g["unreg"] or g["deleted"]:
                self.report(st, ins, "forgets an object file that was opened never to be deleted")
            if g["erased"]:
                self.report(st, ins, "forgets that a handle was opened never to be deleted")
        else:
            if g["erased"] != 1:
                self.report(st, ins, "does not remove the record after the last close")
            if g["unreg"] != 1:
                self.report(st, ins, "does not unregister the object file once after the last close")
            else:
                q = fl.possible(st, ("F", "obs"), 64)
                n = any(b > 0 or a > 0 for a, b in q)
                if n and g["deleted"] != 1:
                    self.report(st, ins, "does not delete the unregistered object file once")


def run(ctx):
    prog = inl(dump=[r"^(dlopen|dlclose)$", r"^dl(open|close)::\$_\d+::operator\(\)"],
               noinline=[r"DebugObject_ThreadSpecificData::", r"::instance$", r"std::(map|_Rb_tree)<.*>::(find|end|cend|begin|erase|emplace|try_emplace|insert|insert_or_assign|at|count|lower_bound|_M_.*)(\[.*)?$|::operator\[\]$",
                         r"register_object_file_at_lbase$", r"unregister_object_file_ranges$", r"^libcwd::initialize$", "^(dlopen|dlclose)$", "ForceLoadingDebugOutput::", "ObjectFile::~ObjectFile", "_M_valptr"],
               inline=[r"operator(==|!=)", r"_Rb_tree_(const_)?iterator<", r"^std::pair<"])
    names = {}
    for f in prog.fns.values():
        for b in f.order:
            for i in f.blocks[b]:
                if i.is_call() and i.callee == "dlsym":
                    n = f.path(i.ops[1]).strip('"')
                    for b2 in f.order:
                        for j in f.blocks[b2]:
                            if j.op == "store" and j.ops[0] == i.id:
                                o = f.path(j.ops[1])
                                ctx.count("real functions")
                                names.setdefault(n, set()).add(o)
    for name, cls in (("dlopen", Open), ("dlclose", Close)):
        fs = [f for f in prog.fns.values() if f.base == name or f.dem == name]
        if len(fs) != 1:
            raise Broken("anchor vanished: " + name)
        fn = fs[0]
        ctx.analysed(fn)
        bad, n = {}, 0
        for nd in ((None,) if cls is Open else (False, True)):
            r = cls(ctx, fn, ())
            r.nodelete = nd
            analyse(fn, r, 50000)
            bad.update(r.bad)
            n += r.n
        used = set()
        for b in fn.order:
            for i in fn.blocks[b]:
                if i.is_call() and i.callee is None:
                    used.add(fn.path(i.get("fp")) if i.get("fp") is not None else "?")
        want = {"*" + x for x in names.get(name, ())}
        if not used or used - want:
            bad["does not call the function that was looked up as %s: %s" % (name, ", ".join(sorted(used - want)))] = (fn.loc(), ())
        ctx.count("paths", n)
        if not n:
            raise Broken("no path through " + name)
        for m, (w, p) in bad.items():
            ctx.violation(name + "|" + m, "%s() %s" % (name, m), w, p)
        if not bad:
            ctx.ok("%s(): %d paths" % (name, n))
