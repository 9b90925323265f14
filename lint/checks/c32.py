"""Interval algebra of the symbol ranges, over every path of the insertion and of the lookups.

insert_function_symbol_range() (helpers inlined) is followed with an abstract map and an abstract list of pending pieces: one
arbitrary element of the map that ends beyond the start of the new range, and one arbitrary pending piece, whatever they hold.
What a path does to them (erase, insert, change, split) is recorded as terms over the bounds of the new range, of the element
and of the piece, and compared, for every way in which these bounds and the two symbols' sizes can be ordered and both
kinds (DWARF or ELF) of both, with the interval difference: the loser of an overlap keeps exactly its part outside it,
as fragments of the same symbol that are stored under their own end; the winner keeps everything; nothing else changes.
A DWARF symbol wins from an ELF one, otherwise the smaller symbol wins and at equal size the known one.  Every
element that can overlap is visited, every pending piece is inserted under its own end as a part of the new symbol, and the
result says whether one was.  An element is not read after it was erased.

The lookups of symbols and of loaded segments return the element that upper_bound() found for the very address, only if there
is one and it starts at or before the address, and nothing otherwise; ranges from DWARF and ELF are inserted with both ends
shifted by the load base, after checking that they are not empty and do not overflow."""
import itertools
from sym import *
from flow import C

FLOORS = {"paths": 10, "iterations decided": 4, "orderings": 500, "insertions of pieces": 1, "lookups": 2, "ranges added": 1}
TECHNIQUE = "path-sensitive abstract interpretation over a generic map element and pending piece, interval algebra decided over all orderings"
NOTE = "that std::map and std::vector work, and what the DWARF and ELF files say, is assumed; one generic step of each loop is decided, on the assumption that the map held disjoint ranges keyed by their end before"
SR = "libcwd::dwarf::SymbolRange"
S, E_, NAME, DIE = ("a", 1), ("a", 2), ("a", 3), ("a", 4)
END = ("END",)
PV = ("PV",)
EL = {k: ("EL", k) for k in ("start", "end", "s0", "s1", "name", "die")}
PS, PE = ("PS",), ("PE",)
N0, N1 = ("N", 0), ("N", 1)
NOIN = [r"^std::(_Rb_tree|map)<", r"^std::vector<", r"^std::_Rb_tree_(in|de)crement", r"SymbolRange::SymbolRange$", r"^std::allocator",
        r"_M_valptr$", r"~SymbolRange", r"assert_fail"]
IN = [r"^std::_Rb_tree_(const_)?iterator", r"^std::pair<", r"^std::make_pair", r"^std::(forward|move)\b", r"^__gnu_cxx::(__normal_iterator|operator|__ops)", r"^std::operator==", r"^std::operator!=", r"^std::(numeric_limits<|__pair_get)",
      r"^libcwd::dwarf::(detail::|SymbolRange::(?!SymbolRange))", r"^std::(next|prev|advance|__advance|exchange|cbegin|cend)\b"]


class Ins(Rule):
    merge = False
    max_states = 4000
    unroll = 6
    affine = 128
    exact = (PV,)

    def __init__(self, ctx, prog, off):
        self.ctx, self.prog = ctx, prog
        self.off = off
        self.bad, self.seen = {}, set()

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), st.path()))

    def keep(self, fl, t):
        return True

    def keep_mem(self, fl, a, f):
        return True

    def put(self, st, **kw):
        d = dict(st.p)
        d.update(kw)
        st.p = tuple(sorted(d.items(), key=lambda x: x[0]))

    def get(self, st, k):
        return dict(st.p)[k]

    def start(self, fl, st):
        for t in (S, E_, NAME, DIE, END, N0, N1, PV, PS, PE) + tuple(EL.values()):
            fl.wd[t] = 64
        # map: what happened to the generic element; vec: None before the list is made; pieces: the list around the generic one
        st.p = ()
        self.put(st, pos=None, ended=False, erased=False, added=(), objs=(), first=None, piece=None, walks=(), visited=False, main=None, others=())

    # the abstract memory

    def obj(self, st, root, k=0):
        """the range that was made there, and where in it this is"""
        best = None
        for r, o, what in self.get(st, "objs"):
            if r == root and o <= k and (best is None or o > best[1]):
                best = what, o
        return (best[0], k - best[1]) if best else (None, 0)

    def deref(self, fl, st, ins, a):
        r = self.load(fl, st, ins, a, None)
        if r:
            return r[1]
        return st.mem.get(a, ("?", a))

    def split_addr(self, fl, a):
        r = fl.root(a)
        k = a[2] if a[0] == "+" else 0
        if a[0] == "+" and a[1] != r:
            return None, 0
        return r, k

    def load(self, fl, st, ins, a, f):
        r, k = self.split_addr(fl, a)
        if r in (N0, N1):
            r, k = ("VAL", r[1]), k - 32
        if r and r[0] == "VAL":
            if r[1] != 0:
                self.report(st, ins, "reads an element without checking that there is one")
                return ("val", ("?", a))
            if fl.decide(st, fl.mk_icmp("ne", N0, END, 64)) is not True:
                self.report(st, ins, "reads an element without checking that there is one")
            if self.get(st, "erased"):
                self.report(st, ins, "reads an element after it was erased")
            if k == 0:
                return ("val", EL["end"])
            k -= 8
            if k in self.off:
                return ("val", EL[self.off[k]])
            return ("val", ("?", a))
        if r == PV:
            p = self.get(st, "piece")
            if p is None or k % 8 or not 0 <= k // 16 < len(p):
                self.report(st, ins, "reads outside the list of pending pieces")
                return ("val", ("?", a))
            return ("val", p[k // 16][k % 16 // 8])
        o, k = self.obj(st, r, k) if r else (None, 0)
        if o is not None:
            if o[0] == "copy":
                return ("val", EL[self.off[k]]) if k in self.off else ("val", ("?", a))
            d = dict(zip(("start", "end", "s0", "s1", "name", "die"), o[1:]))
            return ("val", d[self.off[k]]) if k in self.off else ("val", ("?", a))
        return None

    def store(self, fl, st, ins, a, v, f):
        r, k = self.split_addr(fl, a)
        if r == PV:
            p = self.get(st, "piece")
            if p is None or k % 8 or not 0 <= k // 16 < len(p):
                self.report(st, ins, "writes outside the list of pending pieces")
                return None
            q = [list(x) for x in p]
            q[k // 16][k % 16 // 8] = v
            self.put(st, piece=tuple(tuple(x) for x in q))
        if r in (N0, N1) or r and r[0] == "VAL":
            self.report(st, ins, "changes an element in place")
        return None

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.startswith("llvm.") or "allocator" in c.split("::")[-1] or "::~" in c and "vector" not in c.rsplit("::", 1)[-1]:
            return ("pure",)
        if c.endswith("assert_fail"):
            st.dead = True
            return None
        if c.endswith("_M_valptr"):
            r = fl.root(args[0])
            if r not in (N0, N1):
                raise Broken("an unknown element of the map is used: %r" % (args[0],))
            return ("val", ("VAL", r[1]))
        if c.startswith("std::_Rb_tree_increment"):
            return ("val", self.step(fl, st, ins, args[0]))
        if c.startswith("std::_Rb_tree_decrement"):
            raise Broken("the map of symbols is walked backwards")
        m = re.search(r"^std::(?:map|_Rb_tree)<.*>::(\w+)(?:\[abi:\w+\])?(?:<.*>)?$", c)
        if m:
            return self.map(fl, st, ins, m.group(1), args)
        m = re.search(r"^std::vector<std::pair<unsigned long, unsigned long>.*>::(~?\w+|operator=)(?:<.*>)?$", c)
        if m:
            return self.vec(fl, st, ins, m.group(1), args)
        if c.endswith("SymbolRange::SymbolRange"):
            if len(args) == 2:
                r, k = self.split_addr(fl, args[1])
                if r in (N0, N1):
                    r, k = ("VAL", r[1]), k - 32
                if r and r[0] == "VAL" and k == 8:
                    self.load(fl, st, ins, ("+", r, 8 + [k for k, v in self.off.items() if v == "start"][0]), None)
                    o = ("copy",)
                else:
                    o, k = self.obj(st, r, k)
                    if k:
                        o = None
                if o is None:
                    raise Broken("a symbol range is copied from an unknown place: %r" % (args[1],))
            else:
                o = ("new",) + tuple(args[1:7]) if len(args) == 7 else None
                if o is None:
                    raise Broken("a symbol range is made in an unknown way")
            r, k = self.split_addr(fl, args[0])
            if r is None:
                raise Broken("a symbol range is made at an unknown place")
            self.put(st, objs=tuple(sorted([x for x in self.get(st, "objs") if x[:2] != (r, k)] + [(r, k, o)], key=repr)))
            return ("pure",)
        if c.startswith(("std::vector", "std::map")):
            raise Broken("unknown use of a container: %s" % c)
        return None

    def step(self, fl, st, ins, n):
        if n != N0:
            self.report(st, ins, "advances beyond the end")
            return N1
        # what was done to it is judged at the end: it may still be erased
        fl.assume(st, fl.mk_icmp("eq", N1, END, 64), True)
        self.put(st, visited=True)
        return N1

    def map(self, fl, st, ins, n, args):
        if n in ("upper_bound", "lower_bound", "begin", "find"):
            if n == "find" or n != "begin" and self.deref(fl, st, ins, args[1]) != S:
                self.report(st, ins, "does not start with the first range that ends beyond the start of the new one")
            if self.get(st, "pos"):
                raise Broken("the map is searched more than once")
            self.put(st, pos=n)
            return ("val", N0)
        if n in ("end", "cend"):
            return ("val", END)
        if n == "erase":
            if args[1] != N0:
                a = st.mem.get(args[1])
                if a != N0:
                    self.report(st, ins, "erases something else than the element it looks at")
                    return ("pure",)
            if self.get(st, "erased"):
                self.report(st, ins, "erases an element twice")
            fl.assume(st, fl.mk_icmp("eq", N1, END, 64), True)
            self.put(st, erased=True, visited=True)
            return ("val", N1)
        if n in ("emplace", "try_emplace", "emplace_hint", "insert_or_assign", "insert"):
            args = list(args[1:])
            if n == "emplace_hint":
                args = args[1:]
            key = self.deref(fl, st, ins, args[0])
            if n == "insert" and len(args) != 1:
                raise Broken("a range is inserted in an unknown way")
            if len(args) == 1:
                args.append(fl.mk_add(args[0], 8))
            if len(args) == 2:
                r, k = self.split_addr(fl, args[1])
                o, k = self.obj(st, r, k)
                if o is None or k:
                    raise Broken("an unknown range is inserted: %r %r" % (args, self.get(st, "objs")))
            elif len(args) == 7:
                o = ("new",) + tuple(self.deref(fl, st, ins, x) for x in args[1:])
            else:
                raise Broken("a range is inserted in an unknown way")
            if o[0] == "copy":
                o = ("new", EL["start"], EL["end"], EL["s0"], EL["s1"], EL["name"], EL["die"])
            rec = (key,) + o[1:]
            out = []
            for ok in (1, 0):
                s = st.copy()
                self.put(s, added=self.get(s, "added") + (rec + (ok,),))
                out.append((s, ("agg", (((0,), ("NEW",)), ((1,), C(ok))))))
                if o[1] != PS:
                    break
            return out
        if n in ("size", "empty", "map", "~map", "key_comp", "_S_right", "_M_end"):
            return None
        raise Broken("the map of symbols is used in an unknown way: %s" % n)

    def vec(self, fl, st, ins, n, args):
        p = self.get(st, "piece")
        if n == "vector" and len(args) >= 3 and self.get(st, "main") is None:
            self.put(st, main=args[0])
        if n in ("emplace_back", "push_back") and self.get(st, "main") is None:
            self.put(st, main=args[0])
        others = dict(self.get(st, "others"))
        if self.get(st, "main") not in (None, args[0]):
            # a second list: what is put into it replaces the pieces when it is moved into the first one
            if n in ("vector", "clear"):
                others[args[0]] = ()
            elif n in ("emplace_back", "push_back"):
                v = tuple(self.deref(fl, st, ins, x) for x in args[1:]) if n == "emplace_back" and len(args) == 3 else \
                    tuple(self.deref(fl, st, ins, fl.mk_add(args[1], k)) for k in (0, 8))
                others[args[0]] = others.get(args[0], ()) + (v,)
            elif n in ("~vector", "reserve"):
                pass
            elif n == "swap" and args[1] == self.get(st, "main"):
                return self.vec(fl, st, ins, n, [args[1], args[0]])
            else:
                raise Broken("a list of pieces is used in an unknown way: %s" % n)
            self.put(st, others=tuple(sorted(others.items(), key=repr)))
            return ("val", ("?",))
        if n in ("swap", "operator="):
            if p is None or args[1] not in others:
                raise Broken("a list of pieces is replaced in an unknown way")
            self.put(st, piece=others.pop(args[1]), others=tuple(sorted(others.items(), key=repr)))
            return ("pure",)
        if n == "vector":
            if len(args) >= 3 and args[2] == C(1):
                a = args[1]
                self.put(st, first=(self.deref(fl, st, ins, a), self.deref(fl, st, ins, fl.mk_add(a, 8))))
            elif len(args) > 2:
                raise Broken("the list of pending pieces starts in an unknown way")
            return ("pure",)
        if n in ("~vector", "reserve"):
            return ("pure",)
        if n in ("emplace_back", "push_back") and self.get(st, "pos") is None and self.get(st, "first") is None:
            v = tuple(self.deref(fl, st, ins, x) for x in args[1:]) if n == "emplace_back" and len(args) == 3 else \
                tuple(self.deref(fl, st, ins, fl.mk_add(args[1], k)) for k in (0, 8))
            self.put(st, first=v)
            return ("val", ("?",))
        if n in ("begin", "cbegin"):
            self.walkdone(fl, st, ins)
            fl.assume(st, fl.mk_icmp("ult", PS, PE, 64), True)
            self.put(st, piece=((PS, PE),), walking=len(self.get(st, "added")))
            return ("val", PV)
        if n in ("end", "cend"):
            if p is None:
                self.walkdone(fl, st, ins)
                fl.assume(st, fl.mk_icmp("ult", PS, PE, 64), True)
                self.put(st, piece=((PS, PE),), walking=len(self.get(st, "added")))
                p = self.get(st, "piece")
            return ("val", fl.mk_add(PV, 16 * len(p)))
        if n == "erase" and len(args) == 2:
            r, k = self.split_addr(fl, args[1])
            if r != PV or k % 16 or not 0 <= k // 16 < len(p):
                self.report(st, ins, "erases something else than a pending piece")
                return ("pure",)
            self.put(st, piece=p[:k // 16] + p[k // 16 + 1:])
            return ("val", args[1])
        if n in ("emplace", "insert"):
            r, k = self.split_addr(fl, args[1])
            if r != PV or k % 16 or not 0 <= k // 16 <= len(p):
                raise Broken("a piece is inserted at an unknown place %r %r" % (args, p))
            if n == "emplace" and len(args) == 4:
                v = tuple(self.deref(fl, st, ins, x) for x in args[2:])
            else:
                v = tuple(self.deref(fl, st, ins, fl.mk_add(args[2], o)) for o in (0, 8))
            self.put(st, piece=p[:k // 16] + (v,) + p[k // 16:])
            return ("val", args[1])
        if n in ("size", "empty"):
            raise Broken("the list of pending pieces is used in an unknown way: %s" % n)
        raise Broken("the list of pending pieces is used in an unknown way: %s" % n)

    # obligations

    def walkdone(self, fl, st, ins):
        """a walk over the pending pieces ended"""
        p = self.get(st, "piece")
        if p is None:
            return
        n = self.get(st, "walking")
        self.put(st, walks=self.get(st, "walks") + ((p, self.get(st, "added")[n:]),), added=self.get(st, "added")[:n], piece=None)

    def models(self, fl, st, piece):
        R = range(4)
        pos = self.get(st, "pos")
        for s, e, a, b in itertools.product(R, R, R, R):
            if not (s < e and a < b) or b <= s and pos == "upper_bound" or b < s and pos == "lower_bound":
                continue
            for lo, hi in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1)):
                for nd, ed in itertools.product((0, 4096), (0, 8192)):
                    m = {S: s + 10, E_: e + 10, EL["start"]: a + 10, EL["end"]: b + 10, EL["s0"]: a + 10 - lo, EL["s1"]: b + 10 + hi,
                         DIE: nd, EL["die"]: ed, NAME: 20000, EL["name"]: 30000, N0: 1, END: 3, N1: 3}
                    if not piece:
                        if fl.consistent(st, m):
                            yield m
                        continue
                    for x, y in itertools.combinations(R, 2):
                        if s <= x and y <= e:
                            m2 = dict(m)
                            m2[PS], m2[PE] = x + 10, y + 10
                            if fl.consistent(st, m2):
                                yield m2

    def ev(self, fl, t, m):
        v = fl.evalterm(t, m)
        if v is None:
            raise Broken("%s: a bound is not a function of the ranges: %r" % (fl.fn.base, t))
        return v

    def dieval(self, fl, st, t, m):
        """the address that a range made with this die pointer remembers"""
        r = fl.root(t)
        if t == DIE:
            return m[DIE]
        if t == C(0):
            return 0
        if t == EL["die"]:
            return m[t]
        k = t[2] if t[0] == "+" else 0
        d = [x for x, v in self.off.items() if v == "die"][0]
        o, k2 = self.obj(st, r, k)
        if o and o[0] == "copy" and k2 == d or r == ("VAL", 0) and k == 8 + d or r == N0 and k == 40 + d:
            return m[EL["die"]]
        raise Broken("an unknown die is stored: %r" % (t,))

    def iterdone(self, fl, st, ins):
        """one element was dealt with: the outcome must be the interval difference"""
        if self.get(st, "visited") == "decided":
            return
        self.walkdone(fl, st, ins)
        walks, added, erased = self.get(st, "walks"), self.get(st, "added"), self.get(st, "erased")
        changed = [w for w in walks if w[0] != ((PS, PE),)]
        if len(walks) > 1:
            raise Broken("the pending pieces are walked twice for one element")
        if any(w[1] for w in walks):
            self.report(st, ins, "inserts pieces before every known range was looked at")
        self.ctx.count("iterations decided")
        n = 0
        for m in self.models(fl, st, bool(walks)):
            n += 1
            s, e, a, b = m[S], m[E_], m[EL["start"]], m[EL["end"]]
            ov = (max(s, a), min(e, b))
            nelf, eelf = m[DIE] == 0, m[EL["die"]] == 0
            wins = (eelf and not nelf) if nelf != eelf else (e - s) < m[EL["s1"]] - m[EL["s0"]]
            hit = ov[0] < ov[1]
            desc = "new [%d,%d) %s, known [%d,%d) %s of size %d" % (s - 10, e - 10, "ELF" if nelf else "DWARF", a - 10, b - 10,
                                                                  "ELF" if eelf else "DWARF", m[EL["s1"]] - m[EL["s0"]])
            if hit and wins:
                want = [(x, y) for x, y in ((a, ov[0]), (ov[1], b)) if x < y]
                got = []
                for key, x, y, s0, s1, name, die, ok in added:
                    x, y = self.ev(fl, x, m), self.ev(fl, y, m)
                    got.append((x, y))
                    if self.ev(fl, key, m) != y:
                        self.report(st, ins, "stores what is left of a range under another key than its end (%s)" % desc)
                    if (self.ev(fl, s0, m), self.ev(fl, s1, m), self.ev(fl, name, m), self.dieval(fl, st, die, m)) != \
                            (m[EL["s0"]], m[EL["s1"]], m[EL["name"]], m[EL["die"]]):
                        self.report(st, ins, "what is left of a range does not belong to the same symbol (%s)" % desc)
                if not erased:
                    self.report(st, ins, "keeps the losing range as it was (%s)" % desc)
                elif sorted(got) != want:
                    self.report(st, ins, "leaves other parts of the losing range than those outside the new one (%s)" % desc)
            else:
                if erased or added:
                    self.report(st, ins, "changes a known range that does not lose an overlap (%s)" % desc)
            if hit and not wins and not walks:
                self.report(st, ins, "does not give up the part of the new range that loses (%s)" % desc)
            if walks:
                x, y = m[PS], m[PE]
                keep = [z for z in range(x, y) if not (hit and not wins and ov[0] <= z < ov[1])]
                got = [(self.ev(fl, p, m), self.ev(fl, q, m)) for p, q in walks[0][0]]
                cells = sorted(z for p, q in got for z in range(p, q))
                if any(p >= q for p, q in got):
                    self.report(st, ins, "keeps an empty pending piece (%s, piece [%d,%d))" % (desc, x - 10, y - 10))
                elif cells != keep:
                    self.report(st, ins, "leaves other parts of a pending piece than those that do not lose (%s, piece [%d,%d))" % (desc, x - 10, y - 10))
        self.ctx.count("orderings", n)
        self.put(st, visited="decided", walks=(), added=())

    def ret(self, fl, st, ins, val):
        self.ctx.count("paths")
        if fl.decide(st, fl.mk_icmp("uge", S, E_, 64)) is True:
            if self.get(st, "pos") or not fl.is_const(st, val, 0):
                self.report(st, ins, "inserts an empty range")
            return
        if not self.get(st, "pos"):
            self.report(st, ins, "returns without having looked at the known ranges")
            return
        if fl.decide(st, fl.mk_icmp("ult", S, E_, 64)) is not True:
            self.report(st, ins, "does not refuse an empty range")
        if self.get(st, "first") != (S, E_):
            self.report(st, ins, "does not start with the whole new range pending")
        empty = fl.decide(st, fl.mk_icmp("eq", N0, END, 64)) is True
        walks = self.get(st, "walks")
        self.walkdone(fl, st, ins)
        walks = self.get(st, "walks")
        if not empty and self.get(st, "visited") != "decided":
            if self.get(st, "visited") or len(walks) > 1:
                last = walks[-1]
                self.put(st, walks=walks[:-1])
                self.iterdone(fl, st, ins)
                walks = (last,)
            else:
                # it stopped before this element: allowed only where it and all that follow cannot overlap
                for m in self.models(fl, st, False):
                    if m[EL["start"]] < m[E_]:
                        self.report(st, ins, "does not look at every known range that can overlap")
                        break
        if len(walks) != 1 or walks[0][0] != ((PS, PE),):
            self.report(st, ins, "does not insert every pending piece")
            return
        w = walks[0][1]
        if len(w) != 1:
            self.report(st, ins, "does not insert every pending piece exactly once")
            return
        self.ctx.count("insertions of pieces")
        if w[0][:7] != (PE, PS, PE, S, E_, NAME, DIE):
            self.report(st, ins, "does not store a piece under its own end as a part of the new symbol (%s)" % (w[0],))
        ok = w[0][7]
        if not fl.is_const(st, val, ok) and not (val[0] == "zext" and fl.is_const(st, val[2], ok)):
            self.report(st, ins, "does not report whether a part was inserted (%s)" % (val,))


class Ctor(Rule):
    """where the constructor of a range puts what"""

    def __init__(self):
        self.off, self.bad = {}, []

    def start(self, fl, st):
        st.p = ()

    def keep(self, fl, t):
        return True

    def put(self, fl, a, what):
        if fl.root(a) == ("a", 0):
            self.off[a[2] if a[0] == "+" else 0] = what

    def store(self, fl, st, ins, a, v, f):
        if v[0] == "a" and v[1]:
            self.put(fl, a, (None, "start", "end", "s0", "s1", "name", "die")[v[1]])

    def memcpy(self, fl, st, ins, dst, src, n):
        if src == ("a", 6):
            if fl.decide(st, fl.mk_icmp("ne", ("a", 6), C(0), 64)) is not True:
                self.bad.append((ins, "copies the die without having one"))
            self.put(fl, dst, "die")

    def call(self, fl, st, ins, args):
        if (ins.callee or "").endswith("assert_fail"):
            st.dead = True
        return None


class Seg(Ctor):
    def store(self, fl, st, ins, a, v, f):
        if v[0] == "a" and v[1]:
            self.put(fl, a, (None, "object", "start", "end", "flags")[v[1]])


class Find(Rule):
    """a lookup by address"""
    merge = False
    max_states = 2000

    def __init__(self, ctx, what, off, retelem):
        self.ctx, self.what, self.off, self.retelem = ctx, what, off, retelem
        self.bad = {}

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), st.path()))

    def keep(self, fl, t):
        return True

    def keep_mem(self, fl, a, f):
        return True

    def start(self, fl, st):
        for t in (N0, END, S, EL["start"], ("OBJ",)):
            fl.wd[t] = 64
        fl.assume(st, fl.mk_icmp("ne", ("OBJ",), C(0), 64), True)
        st.p = (False,)

    def load(self, fl, st, ins, a, f):
        r = fl.root(a)
        k = a[2] if a[0] == "+" else 0
        if r == N0:
            r, k = ("VAL", 0), k - 32
        if r == ("VAL", 0):
            if fl.decide(st, fl.mk_icmp("ne", N0, END, 64)) is not True:
                self.report(st, ins, "reads an element without checking that there is one")
            role = self.off.get(k - 8)
            if role == "start":
                return ("val", EL["start"])
            if role == "object":
                return ("val", ("OBJ",))
        return None

    def key(self, fl, st):
        return ("a", self.arg)

    def call(self, fl, st, ins, args):
        c = ins.callee or ""
        if c.endswith("_M_valptr"):
            return ("val", ("VAL", 0)) if fl.root(args[0]) == N0 else None
        m = re.search(r"^std::(?:map|_Rb_tree)<.*>::(\w+)(?:\[abi:\w+\])?(?:<.*>)?$", c)
        if m and m.group(1) in ("end", "cend"):
            return ("val", END)
        if m and m.group(1) == "upper_bound":
            k = st.mem.get(args[1])
            if k != ("a", self.arg):
                self.report(st, ins, "looks for another address than it was given")
            st.p = (True,)
            self.ctx.count("searches")
            return ("val", N0)
        if m and m.group(1) in ("lower_bound", "find", "begin", "equal_range"):
            self.report(st, ins, "does not look for the first range that ends beyond the address")
            return ("val", N0)
        if c.endswith("assert_fail"):
            st.dead = True
        return None

    def modifies(self, fl, st, ins, args):
        return None

    def ret(self, fl, st, ins, val):
        self.ctx.count("paths")
        if not st.p[0]:
            self.report(st, ins, "returns without looking the address up")
            return
        hit = fl.decide(st, fl.mk_icmp("ne", N0, END, 64)) is True
        inside = hit and fl.decide(st, fl.mk_icmp("ule", EL["start"], ("a", self.arg), 64))
        good = ("OBJ",) if self.retelem == "object" else ("+", ("VAL", 0), 8)
        if not hit or inside is False:
            if not fl.is_const(st, val, 0):
                self.report(st, ins, "returns something although no range contains the address")
        elif inside is None:
            self.report(st, ins, "does not look whether the range starts at or before the address")
        elif val != good and val != ("+", N0, 40) and not (val == ("VAL", 0) and good[2:] == (0,)):
            self.report(st, ins, "does not return what contains the address")


class Add(Rule):
    """add_function_symbol_range: both ends shifted by the load base, after the checks"""
    merge = False
    max_states = 2000

    def __init__(self, ctx):
        self.ctx, self.bad = ctx, {}

    def report(self, st, ins, msg):
        self.bad.setdefault(msg, (ins.where(), st.path()))

    def keep(self, fl, t):
        return True

    def start(self, fl, st):
        st.p = ()
        for k in range(1, 6):
            fl.wd[("a", k)] = 64

    def call(self, fl, st, ins, args):
        if (ins.callee or "").endswith("::insert_function_symbol_range"):
            self.ctx.count("ranges added")
            M = (1 << 64) - 1
            top = [0, 1, 2, 3, 5, M // 2, M - 5, M - 2, M - 1, M]
            for a, b, l in itertools.product(top, top, top):
                m = {("a", 1): a, ("a", 2): b, ("a", 5): l}
                if not fl.consistent(st, m):
                    continue
                self.ctx.count("orderings")
                if not a < b or b > M - l:
                    self.report(st, ins, "inserts a range that is empty or wraps around (%d, %d, load base %d)" % (a, b, l))
                x, y = fl.evalterm(args[1], m), fl.evalterm(args[2], m)
                if x is None or y is None or (x & M, y & M) != ((a + l) & M, (b + l) & M):
                    self.report(st, ins, "does not shift both ends by the load base")
            if args[3] != ("a", 3) or args[4] != ("a", 4):
                self.report(st, ins, "inserts another name or die than it was given")
            st.p = ("done",)
            fl.wd[("RES",)] = 1
            return ("val", ("RES",))
        return None

    def ret(self, fl, st, ins, val):
        self.ctx.count("paths")
        if st.p:
            if val != ("RES",) and not (val[0] == "zext" and val[2] == ("RES",)):
                self.report(st, ins, "does not return what the insertion returned")
        else:
            if not fl.is_const(st, val, 0):
                self.report(st, ins, "reports an insertion that did not happen")
            for a, b, l in itertools.product((0, 1, 9, 1 << 63), repeat=3):
                if a < b and b <= (1 << 64) - 1 - l and fl.consistent(st, {("a", 1): a, ("a", 2): b, ("a", 5): l}):
                    self.report(st, ins, "drops a valid range")


def run(ctx):
    roots = [r"^libcwd::dwarf::insert_function_symbol_range$", r"SymbolRange::SymbolRange$", r"PTLoadSegment::PTLoadSegment$",
             r"get_symbol_range_from_function_symbols_map$", r"ObjectFileRegistry::find_object_file$", r"add_function_symbol_range$"]
    p = inl(dump=roots, noinline=NOIN, inline=IN)
    p2 = inl(dump=roots[1:], noinline=NOIN + [r"^libcwd::dwarf::insert_function_symbol_range$", r"realize_symbols$", r"PTLoadSegment::PTLoadSegment$"],
             inline=IN + [r"^libcwd::dwarf::PTLoadSegment::(start_addr|object_file)"])

    def one(q, base, n=None):
        l = [f for f in q.fns.values() if f.base == base and "{lambda" not in f.dem and "'lambda" not in f.dem and (n is None or len(f.args) == n)]
        if len(l) != 1:
            raise Broken("anchor vanished: %s" % base)
        ctx.analysed(l[0])
        return l[0]

    def go(fn, rule, cap=400000):
        analyse(fn, rule, cap)
        short = fn.base.rsplit("::", 1)[-1]
        said = set()
        for msg, (w, path) in rule.bad.items():
            k = msg.split(" (")[0]
            if k not in said:
                said.add(k)
                ctx.violation("%s|%s" % (short, k), "%s() %s" % (short, msg), w, path=path)
        if not rule.bad:
            ctx.ok("%s: every path" % fn.base)

    ct = one(p, SR + "::SymbolRange", 7)
    lay = Ctor()
    analyse(ct, lay)
    for ins, msg in lay.bad:
        ctx.violation("ctor|" + msg, "the constructor of a range " + msg, ins.where())
    if sorted(lay.off.values()) != sorted(["start", "end", "s0", "s1", "name", "die"]):
        ctx.violation("ctor", "the constructor of a range does not keep all that it was given: %s" % sorted(lay.off.values()), ct.where())
        return
    go(one(p, "libcwd::dwarf::insert_function_symbol_range"), Ins(ctx, p, lay.off))
    for base, arg, ret, cls in (("libcwd::dwarf::ObjectFileData::get_symbol_range_from_function_symbols_map", 1, "elem", None),
                                ("libcwd::dwarf::ObjectFileRegistry::find_object_file", 0, "object", "libcwd::dwarf::PTLoadSegment")):
        off = lay.off
        if cls:
            k = Seg()
            analyse(one(p, cls + "::PTLoadSegment", 5), k)
            off = k.off
        r = Find(ctx, base, off, ret)
        r.arg = arg
        ctx.count("lookups")
        go(one(p2, base), r)
    go(one(p2, "libcwd::dwarf::ObjectFileData::add_function_symbol_range"), Add(ctx))
