"""Interprocedural abstract interpreter over monomorphic MIR facts.

Domain: Herbrand terms (vp.terms) for values, interval sets for branch facts, traces partitioned by
branch facts.  Loops are summarised by one abstract iteration over widened loop variables; recursive
calls are cut to an uninterpreted effect.  Nothing of the analysed program is executed.
"""
import heapq
import json
import sys
from collections import defaultdict

from .terms import *
from .terms import _dig_of

sys.setrecursionlimit(20000)

ERASED = {
    "std::boxed::Box", "std::rc::Rc", "std::sync::Arc", "std::ptr::NonNull", "std::ptr::Unique",
    "core::ptr::Unique", "std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::ptr::unique::Unique",
    "core::ptr::unique::Unique", "std::mem::maybe_dangling::MaybeDangling", "core::mem::maybe_dangling::MaybeDangling",
    "std::pin::Pin", "std::cell::UnsafeCell", "std::mem::MaybeDangling", "flexstr::FlexStr",
}
OPAQUE_ADT = {"std::vec::Vec", "std::string::String", "std::path::PathBuf"}


class Bail(Exception):
    """analysis gives up on this root (undecided)"""


class Prog:
    def __init__(self, path):
        self.fns = {}
        self.tys = {}
        self.roots = {}
        for line in open(path):
            r = json.loads(line)
            if r[0] == "fn":
                self.fns[r[1]] = r
            elif r[0] == "ty":
                if r[3][0] == "adt" and r[3][2] == "enum":
                    # discriminants are extracted as raw bits: the negative ones are the top of the unsigned range
                    for v in r[3][4]:
                        if v[1] >= 1 << 63:
                            v[1] -= 1 << 64
                        elif r[3][1] == "std::cmp::Ordering" and v[1] == 255:
                            v[1] = -1
                self.tys[r[1]] = r
            elif r[0] == "root":
                self.roots[r[2]] = r[1]
        self.rootkeys = set(self.roots.values())
        self._trans = {}
        self._loops = {}
        self.rpo = {}
        self._vt = {}

    # ---- types
    def d(self, t):
        return self.tys[t][3]

    def size(self, t):
        return self.tys[t][4]

    def tname(self, t):
        return self.tys[t][2]

    def adt(self, t):
        d = self.d(t)
        return d[1] if d[0] == "adt" else None

    def transparent(self, t):
        """index of the only non-zero-sized field of a struct that is represented by that field"""
        r = self._trans.get(t, 0)
        if r != 0:
            return r
        r = None
        d = self.d(t)
        if d[0] == "adt" and d[2] == "struct" and d[1] not in ERASED and d[1] not in OPAQUE_ADT and d[1] not in ("vp_harness::In", "vp_harness::Out", "In", "Out"):
            fs = d[4][0][2] if d[4] else []
            nz = [i for i, (n, ft) in enumerate(fs) if self.size(ft) != 0]
            if len(nz) == 1 and not (len(fs) > 1 and d[1].startswith(("std::iter::", "itertools::"))):
                # (an iterator adaptor is not the iterator in it)
                r = nz[0]
        self._trans[t] = r
        return r

    def peel(self, t):
        while True:
            i = self.transparent(t)
            if i is not None:
                t = self.d(t)[4][0][2][i][1]
                continue
            d = self.d(t)
            if d[0] == "adt" and d[1] in ERASED and d[3] and isinstance(d[3][0], int):
                t = d[3][0]
                continue
            if d[0] == "ref":
                t = d[1]
                continue
            return t

    def vty(self, t):
        """value type tag used for ranges / eta"""
        r = self._vt.get(t)
        if r is not None or t in self._vt:
            return r
        p = self.peel(t)
        d = self.d(p)
        if d[0] == "bool":
            r = "bool"
        elif d[0] == "int":
            r = ("i", d[1], d[2])
        elif d[0] == "char":
            r = ("char",)
        elif d[0] == "adt":
            r = ("adt", d[1])
        else:
            r = None
        self._vt[t] = r
        return r

    def variants(self, t):
        return self.d(t)[4]

    # ---- natural loops
    def loops(self, key):
        r = self._loops.get(key)
        if r is not None:
            return r
        blocks = self.fns[key][8]["blocks"]
        n = len(blocks)
        succ = [[] for _ in range(n)]
        for i, b in enumerate(blocks):
            if not b:
                continue
            t = b[1]
            if t[0] == "goto":
                succ[i] = [t[1]]
            elif t[0] == "sw":
                succ[i] = [x for _, x in t[2]] + [t[3]]
            elif t[0] == "drop":
                succ[i] = [t[2]]
            elif t[0] == "call" and t[4] is not None:
                succ[i] = [t[4]]
            elif t[0] == "assert":
                succ[i] = [t[5]]
        # reachable + dominators (simple iterative)
        order = []
        seen = set()

        def dfs(root):
            st = [(root, iter(succ[root]))]
            seen.add(root)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    st.pop()

        dfs(0)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        pred = defaultdict(list)
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = new, p
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        loops = {}
        for u in rpo:
            for h in succ[u]:
                if dominates(h, u):
                    body = loops.setdefault(h, {h})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(pred[x])
        self._loops[key] = loops
        self.rpo[key] = num
        return loops


class St:
    __slots__ = ("heap", "facts", "depth", "err", "ext")

    def copy(self):
        s = St()
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.depth = self.depth
        s.err = self.err
        s.ext = self.ext
        return s


class Frame:
    __slots__ = ("key", "body", "cells", "stack")


_cell = [0]


def newcell():
    _cell[0] += 1
    return _cell[0]


def mkref(key, path):
    return mk("ref", key, path)


class Engine:
    def __init__(self, prog, prims, io_errors=False, cut=None, max_paths=6000):
        self.p = prog
        self.prims = prims
        self.io_errors = io_errors
        self.rec_err = False
        self.panics = []
        self.swallowed = []
        self.cut = cut or set()
        self.merging = True
        self.max_paths = max_paths
        self.visited = set()
        self.boolcells = set()
        self.slots = {}
        self.sites = 0
        self.steps = 0
        self.unmodelled = defaultdict(int)
        self.callsites = []
        self.stack = ()

    # ------------------------------------------------------------------ state helpers
    def constrain(self, st, x, S):
        """st with x in S, or None.  x integer term"""
        f, c, s = split_const(x)
        if f is None:
            return st if inter(S, ((c, c),)) else None
        T = shift(S, -c)
        if s < 0:
            T = negiv(T)
        cur = universe(f, st.facts)
        if f.op == "lin":
            lo, hi = rng(f, st.facts)
            cur = inter(cur, iv(lo, hi))
        new = inter(cur, T)
        if not new:
            return None
        if new == cur:
            return st
        s2 = st.copy()
        s2.facts[f] = new
        return s2

    def split_case(self, st, c):
        """[(state, value)] for a case term"""
        out = []
        for S, v in c.a[1]:
            s2 = self.constrain(st, c.a[0], S)
            if s2 is not None:
                if v.op == "case":
                    out += self.split_case(s2, v)
                else:
                    out.append((s2, v))
        return out

    def case_atom(self, x):
        """a case atom directly inside an integer form"""
        if x.op == "case":
            return x
        if x.op == "lin":
            for t, _ in x.a[1]:
                if t.op == "case":
                    return t
        return None

    def assume(self, st, b, val):
        """list of states in which boolean term b has truth value val"""
        if b.op == "case":
            return [s2 for s1, v in self.split_case(st, b) for s2 in self.assume(s1, v, val)]
        if b.op == "in":
            c = self.case_atom(b.a[0])
            if c is not None:
                out = []
                for s1, v in self.split_case(st, c):
                    out += self.assume(s1, mkin(subst(b.a[0], {c: v}), b.a[1]), val)
                return out
        if b.op == "int":
            return [st] if bool(b.a[0]) == val else []
        if b.op == "not":
            return self.assume(st, b.a[0], not val)
        if b.op == "band":
            if val:
                return [s2 for s1 in self.assume(st, b.a[0], True) for s2 in self.assume(s1, b.a[1], True)]
            r = self.assume(st, b.a[0], False)
            for s1 in self.assume(st, b.a[0], True):
                r += self.assume(s1, b.a[1], False)
            return r
        if b.op == "in":
            u = universe(b.a[0])
            s = self.constrain(st, b.a[0], b.a[1] if val else minus(u, b.a[1]))
        else:
            s = self.constrain(st, b, ((1, 1),) if val else ((0, 0),))
        return [s] if s is not None else []

    def branch(self, st, b):
        return self.assume(st, b, True), self.assume(st, b, False)

    def load(self, st, key, path):
        v = st.heap.get(key, UNINIT)
        for s in path:
            v = self.step(v, s)
        return v

    def step(self, v, s):
        if s[0] == "f":
            if v.op == "ref":
                return v
            return fld(v, s[1], s[2], s[4])
        if s[0] == "i":
            return idx(v, s[1], s[2])
        if s[0] == "s":
            return mkslice(v, s[1], s[2] if s[2] is not None else seqlen(v))
        if s[0] == "z":
            return UNIT
        raise Bail("step " + str(s))

    def setp(self, v, path, new):
        if not path:
            return new
        s = path[0]
        if v.op == "case":
            def f(w):
                if s[0] == "f" and w.op == "agg" and w.a[1] != s[1]:
                    return w
                return self.setp(w, path, new)
            return map_case(v, f)
        if s[0] == "f":
            _, variant, name, contty, _ = s
            if v.op != "agg" or v.a[1] != variant:
                v2 = self.expand(v, variant, contty)
            else:
                v2 = v
            ty, va, names, vals = v2.a
            i = names.index(name)
            nv = self.setp(vals[i], path[1:], new)
            return mkagg(ty, va, names, vals[:i] + (nv,) + vals[i + 1:])
        if s[0] == "i":
            old = idx(v, s[1], s[2])
            nv = self.setp(old, path[1:], new)
            if nv is old:
                return v
            if v.op == "seq" and s[1].op == "int" and all(i.op == "el" for i in v.a[0]) and s[1].a[0] < len(v.a[0]):
                k = s[1].a[0]
                return mkseq(v.a[0][:k] + (mk("el", nv),) + v.a[0][k + 1:])
            if v.op == "upd" and v.a[1] is s[1]:
                return mk("upd", v.a[0], s[1], nv)
            return mk("upd", v, s[1], nv)
        if s[0] == "s":
            hi = s[2] if s[2] is not None else seqlen(v)
            if s[1] is I(0) and hi is seqlen(v):
                return self.setp(v, path[1:], new)
            return mk("updslice", v, s[1], hi, self.setp(mkslice(v, s[1], hi), path[1:], new))
        if s[0] == "z":
            return v
        raise Bail("setp")

    def expand(self, v, variant, contty):
        d = self.p.d(contty)
        if d[0] == "adt":
            for vn, dv, fs in d[4]:
                if (vn if d[2] == "enum" else "") == variant:
                    names = tuple(sorted(n for n, _ in fs))
                    tys = dict(fs)
                    return mk("agg", d[1], variant, names,
                              tuple(fld(v, variant, n, self.p.vty(tys[n])) if v.op != "agg" else UNINIT for n in names))
        if d[0] == "tuple":
            names = tuple(str(i) for i in range(len(d[1])))
            return mk("agg", "tuple", "", names, tuple(fld(v, "", n, self.p.vty(t)) for n, t in zip(names, d[1])))
        if d[0] == "closure":
            n = len(self.p.d(d[3])[1])
            names = tuple(str(i) for i in range(n))
            return mk("agg", "closure:" + d[1], "", names, tuple(fld(v, "", x) for x in names))
        raise Bail("expand " + str(d)[:60])

    def store(self, st, key, path, val):
        if path:
            st.heap[key] = self.setp(st.heap.get(key, UNINIT), path, val)
        else:
            st.heap[key] = val
        if key in self.slots:
            # a reference into a map: the entry changes with it
            mref, k = self.slots[key]
            m = self.deref(st, mref)
            base, items = m.a[3]
            items = items_of(items)
            if items and items[-1].op == "ins" and items[-1].a[0] is k:
                items = items[:-1]
            self.setref(st, mref, mkagg(m.a[0], m.a[1], m.a[2], (base, mkseq(items + (mk("ins", k, self.freeze(st, st.heap[key])),)))))

    # deref helpers for primitives
    def deref(self, st, v):
        """value behind a reference (or the value itself when references are erased)"""
        while v.op == "ref":
            v = self.load(st, v.a[0], v.a[1])
        return v

    def setref(self, st, r, val):
        """store through a reference"""
        while True:
            if r.op != "ref":
                raise Bail("store through " + show(r)[:80])
            v = self.load(st, r.a[0], r.a[1])
            if v.op == "ref":
                r = v
                continue
            self.store(st, r.a[0], r.a[1], val)
            return

    # ------------------------------------------------------------------ places / operands
    def place(self, st, fr, pl):
        """-> key, path, ty, boxptr"""
        key = fr.cells[pl[0]]
        ty = fr.body["locals"][pl[0]]
        path = ()
        variant = ""
        box = False
        p = self.p
        for e in pl[1]:
            if e == "*":
                d = p.d(ty)
                v = self.load(st, key, path)
                if v.op == "ref" and not (d[0] == "ref" and not d[2] and self.holds_ref(d[1])):
                    # one reference level per deref; shared levels are erased
                    key, path = v.a
                if d[0] in ("ref", "ptr"):
                    ty = d[1]
                elif d[0] == "adt" and d[3]:
                    ty = d[3][0]
                box = False
            elif e == "oc":
                pass
            elif e[0] == "f":
                d = p.d(ty)
                if d[0] == "adt":
                    if d[1] in ERASED:
                        if d[1] == "std::boxed::Box":
                            box = True
                        ty = e[2]
                        if p.size(e[2]) == 0:
                            path = path + (("z",),)
                        continue
                    ti = p.transparent(ty)
                    if ti is not None:
                        if e[1] != ti:
                            path = path + (("z",),)
                        ty = e[2]
                        continue
                    if d[2] == "union":
                        ty = e[2]
                        continue
                    fs = None
                    for vn, dv, f2 in d[4]:
                        if d[2] != "enum" or vn == variant:
                            fs = f2
                            break
                    name = fs[e[1]][0]
                    path = path + (("f", variant if d[2] == "enum" else "", name, ty, p.vty(e[2])),)
                else:
                    path = path + (("f", "", str(e[1]), ty, p.vty(e[2])),)
                variant = ""
                ty = e[2]
            elif e[0] == "d":
                variant = p.d(ty)[4][e[1]][0] if p.d(ty)[0] == "adt" else str(e[1])
            elif e[0] == "i":
                i = self.load(st, fr.cells[e[1]], ())
                d = p.d(ty)
                et = d[1]
                path = path + (("i", i, p.vty(et)),)
                ty = et
            elif e[0] == "ci":
                d = p.d(ty)
                et = d[1]
                if e[3]:
                    i = sub(seqlen(self.load(st, key, path)), I(e[1]))
                else:
                    i = I(e[1])
                path = path + (("i", i, p.vty(et)),)
                ty = et
            elif e[0] == "ss":
                v = self.load(st, key, path)
                hi = sub(seqlen(v), I(e[2])) if e[3] else I(e[2])
                path = path + (("s", I(e[1]), hi),)
            else:
                raise Bail("proj " + str(e))
        return key, path, ty, box

    def holds_ref(self, ty):
        """is a value of this type itself represented by a location"""
        p = self.p
        while True:
            ti = p.transparent(ty)
            d = p.d(ty)
            if ti is not None:
                ty = d[4][0][2][ti][1]
                continue
            if d[0] == "ref":
                if d[2]:
                    return True
                ty = d[1]
                continue
            if d[0] == "ptr":
                return True
            if d[0] == "adt" and d[1] in ERASED and d[3] and isinstance(d[3][0], int):
                ty = d[3][0]
                continue
            return False

    def rdplace(self, st, fr, pl):
        if not pl[1]:
            return st.heap.get(fr.cells[pl[0]], UNINIT)
        key, path, ty, box = self.place(st, fr, pl)
        if box:
            return mkref(key, path)
        v = self.load(st, key, path)
        if v.ty is None and v.op in ("fld", "idx"):
            t = self.p.vty(ty)
            if t is not None:
                v.ty = t
        return v

    def operand(self, st, fr, op):
        if op[0] == "k":
            return self.const(op[1])
        v = self.rdplace(st, fr, op[1])
        if op[0] == "m" and not op[1][1]:
            st.heap.pop(fr.cells[op[1][0]], None)
        return v

    def optype(self, fr, op):
        if op[0] == "k":
            c = op[1]
            return c[2] if c[0] == "int" else None
        pl = op[1]
        ty = fr.body["locals"][pl[0]]
        for e in pl[1]:
            if e == "*":
                d = self.p.d(ty)
                ty = d[1] if d[0] in ("ref", "ptr") else d[3][0]
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = self.p.d(ty)[1]
        return ty

    def const(self, c):
        k = c[0]
        if k == "int":
            return I(c[1])
        if k == "bool":
            return TRUE if c[1] else FALSE
        if k == "char":
            return I(c[1])
        if k == "float":
            return mk("float", c[1], c[2])
        if k == "ref":
            return self.const(c[1])
        if k == "str":
            return mk("str", c[1])
        if k == "slice":
            return mkseq(tuple(mk("el", self.const(x)) for x in c[2]))
        if k == "agg":
            ty, var, vals = c[1], c[2], [self.const(x) for x in c[3]]
            if self.p.d(ty)[0] == "adt" and self.p.d(ty)[1] in ("std::vec::Vec", "std::string::String") and vals and vals[-1] is I(0):
                return EMPTY
            return self.aggregate(ty, var, vals)
        if k == "zst":
            d = self.p.d(c[1])
            if d[0] == "fndef":
                return mk("fn", d[1] if d[1] else "unres:" + d[2])
            if d[0] == "closure":
                return mk("agg", "closure:" + d[1], "", (), ())
            if d[0] == "tuple":
                return UNIT
            if d[0] == "adt":
                if d[2] == "enum":
                    pass
                elif d[4]:
                    names = tuple(sorted(n for n, _ in d[4][0][2]))
                    return mk("agg", d[1], "", names, tuple(UNIT for _ in names)) if names else mk("agg", d[1], "", (), ())
                return mk("agg", d[1], "", (), ())
            if d[0] == "array":
                return EMPTY
            return UNIT
        if k == "fn":
            return mk("fn", c[1])
        if k == "static":
            return mk("static", c[1])
        if k == "rtc":
            return FALSE
        return mk("opaque", str(c[1])[:200])

    def aggregate(self, ty, var, vals):
        p = self.p
        d = p.d(ty)
        if d[0] == "adt":
            ti = p.transparent(ty)
            if ti is not None:
                return vals[ti]
            if d[1] in ERASED:
                return vals[0] if vals else UNIT
            vn, _, fs = d[4][var or 0]
            order = sorted(range(len(fs)), key=lambda i: fs[i][0])
            return mkagg(d[1], vn if d[2] == "enum" else "", tuple(fs[i][0] for i in order), tuple(vals[i] for i in order))
        if d[0] == "tuple":
            return mk("agg", "tuple", "", tuple(str(i) for i in range(len(vals))), tuple(vals))
        if d[0] == "closure":
            return mk("agg", "closure:" + d[1], "", tuple(str(i) for i in range(len(vals))), tuple(vals))
        if d[0] in ("array", "slice"):
            return mkseq(tuple(mk("el", v) for v in vals))
        if d[0] == "ref":
            return self.aggregate(d[1], var, vals)
        return mk("opaque", "agg:" + p.tname(ty))

    def mkenum(self, ty, vname, *vals):
        """build enum value of type id ty (or adt name for Option/Result)"""
        if isinstance(ty, str):
            return mkagg(ty, vname, tuple(str(i) for i in range(len(vals))), tuple(vals))
        for i, (vn, _, fs) in enumerate(self.p.d(ty)[4]):
            if vn == vname:
                return self.aggregate(ty, i, list(vals))
        raise Bail("mkenum")

    def some(self, v):
        return mkagg("std::option::Option", "Some", ("0",), (v,))

    NONE = mk("agg", "std::option::Option", "None", (), ())

    def ok(self, v):
        return mkagg("std::result::Result", "Ok", ("0",), (v,))

    def er(self, v):
        return mkagg("std::result::Result", "Err", ("0",), (v,))

    def discr_of(self, v, ty):
        d = self.p.d(ty)
        if d[0] == "adt" and d[2] == "enum":
            if v.op == "agg":
                for vn, dv, _ in d[4]:
                    if vn == v.a[1]:
                        return I(dv)
            if v.op == "case":
                return map_case(v, lambda w: self.discr_of(w, ty))
            u = ()
            for vn, dv, _ in d[4]:
                u = union(u, ((dv, dv),))
            n = mk("discr", v)
            if n.ty is None:
                n.ty = ("set", u)
                DISCR[n] = {dv: vn for vn, dv, _ in d[4]}
            if v.ty is None:
                v.ty = ("adt", d[1])
            return n
        return I(0)

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref" or k == "addr":
            if k == "ref":
                mut, pl = r[1], r[2]
            else:
                mut, pl = True, r[1]
            key, path, ty, box = self.place(st, fr, pl)
            if mut:
                v = self.load(st, key, path)
                # reborrow of an erased reference value keeps the location
                return mkref(key, path)
            v = self.load(st, key, path)
            if v.ty is None and v.op in ("fld", "idx"):
                t = self.p.vty(ty)
                if t is not None:
                    v.ty = t
            return v
        if k == "bin" or k == "chk":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, fr, r[1], a, b, r[4], k == "chk", r[2], r[3])
        if k == "un":
            return self.unop(st, r[1], self.operand(st, fr, r[2]), r[3] if len(r) > 3 else None)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            return self.cast(st, r[1], v, r[3], r[4])
        if k == "discr":
            key, path, ty, box = self.place(st, fr, r[1])
            return self.discr_of(self.deref(st, self.load(st, key, path)), ty)
        if k == "len":
            key, path, ty, box = self.place(st, fr, r[1])
            return seqlen(self.load(st, key, path))
        if k == "agg":
            kind, ty, var, ops = r[1], r[2], r[3], r[4]
            vals = [self.operand(st, fr, o) for o in ops]
            if kind == "array":
                return mkseq(tuple(mk("el", v) for v in vals))
            if kind == "rawptr":
                return vals[0]
            return self.aggregate(ty, var, vals)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = int(r[2]) if r[2] is not None else None
            if n is not None and n <= 64:
                return mkseq(tuple(mk("el", v) for _ in range(n)))
            return mk("fill", v, I(n if n is not None else -1))
        raise Bail("rvalue " + str(k))

    def binop(self, st, fr, op, a, b, ty, chk, oa=None, ob=None):
        a = self.deref(st, a) if a.op == "ref" else a
        b = self.deref(st, b) if b.op == "ref" else b
        t = self.p.vty(ty) if ty is not None else None
        isint = t is not None and (t == "bool" or t[0] in ("i", "char", "set"))
        o = op.replace("Unchecked", "").replace("WithOverflow", "")
        r = None
        if o in ("Add", "Sub", "Mul"):
            if isint:
                if o == "Add":
                    r = add(a, b)
                elif o == "Sub":
                    r = sub(a, b)
                else:
                    if a.op == "int":
                        r = scale(b, a.a[0])
                    elif b.op == "int":
                        r = scale(a, b.a[0])
                    else:
                        x, y = sorted((a, b), key=dig)
                        r = typed(mk("mul", x, y), None)
                if chk:
                    lo, hi = tyrange(t)[0]
                    rl, rh = rng(r, st.facts)
                    if rl >= lo and rh <= hi:
                        ov = FALSE
                    else:
                        ov = neg(mkin(r, iv(lo, hi)))
                    return mk("agg", "tuple", "", ("0", "1"), (r, ov))
                return r
            r = mk("f" + o, a, b)
            return r
        if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isint or (a.op in ("int", "lin") and b.op in ("int", "lin")):
                if t == "bool" and o in ("Eq", "Ne"):
                    e = self.booleq(a, b)
                    return e if o == "Eq" else neg(e)
                if o == "Eq":
                    return cmp_eq(a, b)
                if o == "Ne":
                    return neg(cmp_eq(a, b))
                if o == "Lt":
                    return cmp_lt(a, b)
                if o == "Ge":
                    return neg(cmp_lt(a, b))
                if o == "Gt":
                    return cmp_lt(b, a)
                return neg(cmp_lt(b, a))
            return typed(mk("cmp", o, a, b), "bool")
        if o == "Cmp":
            return mk("ord", a, b)
        if o in ("BitAnd", "BitOr", "BitXor"):
            if t == "bool":
                if o == "BitAnd":
                    return band(a, b)
                if o == "BitOr":
                    return bor(a, b)
                return neg(self.booleq(a, b))
            if a.op == "int" and b.op == "int":
                x, y = a.a[0], b.a[0]
                return I({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[o])
            x, y = sorted((a, b), key=dig)
            return typed(mk(o, x, y), t)
        if o in ("Div", "Rem"):
            if isint and a.op == "int" and b.op == "int" and b.a[0] > 0 and a.a[0] >= 0:
                return I(a.a[0] // b.a[0] if o == "Div" else a.a[0] % b.a[0])
            return typed(mk(o, a, b), t)
        if o in ("Shl", "Shr"):
            if a.op == "int" and b.op == "int" and a.a[0] >= 0:
                if o == "Shr":
                    return I(a.a[0] >> b.a[0])
                lo, hi = tyrange(t)[0]
                return I((a.a[0] << b.a[0]) & hi)
            r = typed(mk(o, a, b), t)
            if chk:
                return mk("agg", "tuple", "", ("0", "1"), (r, FALSE))
            return r
        if o == "Offset":
            return mk("ptroff", a, b)
        raise Bail("binop " + op)

    def booleq(self, a, b):
        return booleq(a, b)

    def unop(self, st, op, v, ty=None):
        if op == "Not":
            t = self.p.vty(ty) if ty is not None else None
            if t == "bool" or v.op in ("in", "not", "band") or v.ty == "bool":
                return neg(v)
            if v.op == "int" and t:
                lo, hi = tyrange(t)[0]
                return I(hi - v.a[0] if lo == 0 else -v.a[0] - 1)
            return typed(mk("Not", v), t)
        if op == "Neg":
            t = self.p.vty(ty) if ty is not None else v.ty
            if v.op in ("int", "lin") or (t and t[0] == "i"):
                return scale(v, -1)
            return mk("Neg", v)
        if op == "PtrMetadata":
            return seqlen(self.deref(st, v))
        raise Bail("unop " + op)

    def cast(self, st, kind, v, to, frm):
        if kind == "IntToInt":
            return self.int_cast(st, v, self.p.vty(to), frm)
        if kind == "BoxDerefTransmute":
            return v
        if kind in ("Transmute", "PtrToPtr", "Subtype") or "Pointer" in kind or kind.startswith("FnPtr") or "Coercion" in kind:
            d = self.p.d(to)
            fd = self.p.d(frm)
            if kind == "Transmute" and d[0] in ("int", "float", "char") and fd[0] in ("int", "float", "char"):
                if v.op == "int" and d[0] == "int":
                    return self.wrap(v.a[0], self.p.vty(to))
                return typed(mk("bitcast", self.p.tname(to), v), self.p.vty(to))
            if "Reify" in kind or "ClosureFnPointer" in kind:
                return v
            if kind == "Transmute" and d[0] == "adt" and d[2] == "enum" and fd[0] == "int":
                return typed(mk("transmute", self.p.tname(to), v), self.p.vty(to))
            return v
        return typed(mk("cast", kind, self.p.tname(to), v), self.p.vty(to))

    def wrap(self, x, t):
        lo, hi = tyrange(t)[0]
        return I((x - lo) % (hi - lo + 1) + lo)

    def int_cast(self, st, v, t, frm=None):
        lo, hi = tyrange(t)[0]
        if v.op == "int":
            return self.wrap(v.a[0], t)
        if t == "bool":
            return v
        if v.op == "discr" or True:
            a, b = rng(v, st.facts)
            if a >= lo and b <= hi:
                return v
        v2 = modred(v, t[1] * 8 if t[0] == "i" else 32)
        if v2 is not v:
            if v2.op == "int":
                return self.wrap(v2.a[0], t)
            a, b = rng(v2, st.facts)
            if a >= lo and b <= hi:
                return v2
            v = v2
        return typed(mk("trunc", f"{'i' if t[0]=='i' and t[2] else 'u'}{t[1]*8 if t[0]=='i' else 32}", v), t)

    # ------------------------------------------------------------------ execution
    def panic(self, st, kind, fr, line, msg=None):
        self.panics.append((kind, fr.key, line, st, msg, self.stack))

    def exec_fn(self, st, key, args, stack):
        f = self.p.fns[key]
        body = f[8]
        self.visited.add(key)
        if len(stack) > 220:
            raise Bail("call depth")
        fr = Frame()
        fr.key = key
        fr.body = body
        fr.stack = stack + (key,)
        st = st.copy()
        n = len(body["locals"])
        base = _cell[0] + 1
        _cell[0] += n
        fr.cells = list(range(base, base + n))
        if body.get("spread") is not None and len(args) == body["argc"] + 0:
            pass
        if body.get("spread") is not None and len(args) != body["argc"]:
            # untupled call of a spread-arg body
            sp = body["spread"]
            pre = args[: sp - 1]
            rest = args[sp - 1:]
            args = pre + [mk("agg", "tuple", "", tuple(str(i) for i in range(len(rest))), tuple(rest))]
        bools = body.get("bools")
        if bools is None:
            bools = body["bools"] = [i for i, t in enumerate(body["locals"]) if self.p.vty(t) == "bool"]
        self.boolcells.update(base + i for i in bools)
        for i, a in enumerate(args):
            st.heap[fr.cells[i + 1]] = a
        saved = self.stack
        self.stack = fr.stack
        res = self.run(fr, [(st, 0)], None)
        self.stack = saved
        out = []
        for s, v in res["ret"]:
            for c in fr.cells:
                s.heap.pop(c, None)
            out.append((s, v))
        return out

    def run(self, fr, work, region):
        """region: None or (header, blocks).  -> dict ret/back/exit"""
        loops = self.p.loops(fr.key)
        num = self.p.rpo[fr.key]
        rets, backs, exits = [], [], []
        pend = {}
        hq = []

        def push(s, b):
            if region is not None:
                if b == region[0]:
                    backs.append(s)
                    return
                if b not in region[1]:
                    exits.append((s, b))
                    return
            l = pend.get(b)
            if l is None:
                pend[b] = [s]
                heapq.heappush(hq, (num[b], b))
            else:
                l.append(s)

        blocks = fr.body["blocks"]
        for s, b in work:
            pend.setdefault(b, []).append(s)
        for b in pend:
            heapq.heappush(hq, (num[b], b))
        todo = []
        while todo or hq:
            if not todo:
                _, bb = heapq.heappop(hq)
                sts = pend.pop(bb)
                if len(sts) > 1 and self.merging:
                    sts = self.merge_states(sts)
                if bb in loops and not (region is not None and bb == region[0]):
                    for st in sts:
                        ev = self.do_loop(fr, st, bb, loops[bb])
                        rets += ev["ret"]
                        for s, b in ev["exit"]:
                            push(s, b)
                    continue
                todo = [(s, bb) for s in reversed(sts)]
            st, bb = todo.pop()
            self.steps += 1
            if self.steps > 3_000_000:
                raise Bail("step budget")
            stmts, term = blocks[bb]
            st = st.copy()
            for s in stmts:
                if s[0] == "=":
                    v = self.rvalue(st, fr, s[2])
                    if not s[1][1]:
                        st.heap[fr.cells[s[1][0]]] = v
                    else:
                        key, path, ty, box = self.place(st, fr, s[1])
                        self.store(st, key, path, v)
                elif s[0] == "dead" or s[0] == "live":
                    st.heap.pop(fr.cells[s[1]], None)
                elif s[0] == "sd":
                    key, path, ty, box = self.place(st, fr, s[1])
                    vn = self.p.d(ty)[4][s[2]][0]
                    v = self.load(st, key, path)
                    if v.op != "agg" or v.a[1] != vn:
                        self.store(st, key, path, self.expand(v, vn, ty))
                else:
                    raise Bail("stmt " + s[0])
            t = term[0]
            if t == "goto":
                push(st, term[1])
            elif t == "sw":
                v = self.operand(st, fr, term[1])
                for s2, b2 in reversed(self.switch(st, v, term[2], term[3])):
                    push(s2, b2)
            elif t == "ret":
                rets.append((st, st.heap.get(fr.cells[0], UNIT)))
            elif t == "drop":
                if not term[1][1]:
                    st.heap.pop(fr.cells[term[1][0]], None)
                push(st, term[2])
            elif t == "assert":
                c = self.operand(st, fr, term[1])
                good, bad = self.assume(st, c, term[2]), self.assume(st, c, not term[2])
                kind = term[3]
                for s in bad:
                    self.panic(s, kind, fr, term[6])
                if kind.startswith("overflow"):
                    push(st, term[5])
                else:
                    for s in good:
                        push(s, term[5])
            elif t == "call":
                for s2, v in reversed(self.call(st, fr, term)):
                    if term[4] is None:
                        continue
                    if s2 is st:
                        s2 = st.copy()
                    if not term[3][1]:
                        s2.heap[fr.cells[term[3][0]]] = v
                    else:
                        key, path, ty, box = self.place(s2, fr, term[3])
                        self.store(s2, key, path, v)
                    push(s2, term[4])
            elif t == "unreach":
                pass
            else:
                raise Bail("term " + t)
            if len(rets) + len(backs) + len(exits) + len(pend) > self.max_paths:
                raise Bail("too many paths")
        if self.merging:
            if region is not None:
                b0 = work[0][0].heap
                backs = [self.simplify(s, b0) for s in backs]
                exits = [(self.simplify(s, b0), b) for s, b in exits]
            backs = self.merge_states(backs)
            exits = self.merge_tagged(exits)
        return {"ret": rets, "back": backs, "exit": exits}

    def simplify(self, st, base=None):
        """values of a state rewritten under the state's own facts; parts shared with base stay as they are"""
        if not st.facts:
            return st
        f = subst_facts(st.facts)

        def rec(v, o):
            if v is o or not has_case(v):
                return v
            if v.op == "agg" and o is not None and o.op == "agg" and v.a[:3] == o.a[:3]:
                return mkagg(v.a[0], v.a[1], v.a[2], tuple(rec(x, y) for x, y in zip(v.a[3], o.a[3])))
            return f(v)

        st = st.copy()
        for c, v in st.heap.items():
            st.heap[c] = rec(v, base.get(c) if base is not None else None)
        return st

    def merge_tagged(self, lst):
        by = {}
        for s, b in lst:
            by.setdefault(b, []).append(s)
        return [(s, b) for b, ss in by.items() for s in self.merge_states(ss)]

    def merge_states(self, sts):
        """join: states whose facts differ in exactly one atom (disjoint sets) become one state whose
        differing values are case terms over that atom"""
        if len(sts) < 2:
            return sts
        sts = list(sts)
        nomerge = set()
        while len(sts) > 1:
            # candidate atoms, latest first
            cand = {}
            for s in sts:
                for f in s.facts:
                    cand[f] = cand.get(f, 0) + 1
            done = False
            keys = [frozenset(s.facts.items()) for s in sts]
            order = []
            for s in sts:
                for i, f in enumerate(s.facts):
                    order.append((-i, f))
            seenf = set()
            for _, f in sorted(order, key=lambda p: p[0]):
                if f in seenf:
                    continue
                seenf.add(f)
                groups = {}
                for i, s in enumerate(sts):
                    S = s.facts.get(f)
                    if S is None:
                        continue
                    groups.setdefault((keys[i] - {(f, S)}, s.err, s.depth), []).append(i)
                for g in groups.values():
                    if len(g) < 2:
                        continue
                    # disjoint?
                    tot = ()
                    ok = True
                    for i in g:
                        if inter(tot, sts[i].facts[f]):
                            ok = False
                        tot = union(tot, sts[i].facts[f])
                    if not ok or (f, tuple(id(sts[i]) for i in g)) in nomerge:
                        continue
                    m = self.merge_group([sts[i] for i in g], f, tot)
                    if m is None:
                        nomerge.add((f, tuple(id(sts[i]) for i in g)))
                        continue
                    gs = set(g)
                    sts = [s for i, s in enumerate(sts) if i not in gs] + [m]
                    done = True
                    break
                if done:
                    break
            if not done:
                break
        return sts

    def merge_group(self, g, f, tot):
        s0 = g[0]
        m = s0.copy()
        m.ext = frozenset().union(*[s.ext for s in g])
        if tot == universe(f):
            del m.facts[f]
        else:
            m.facts[f] = tot
        heap = {}
        for c, v in s0.heap.items():
            vals = [s.heap.get(c) for s in g]
            if any(x is None for x in vals):
                continue
            if all(x is v for x in vals):
                heap[c] = v
                continue
            if any(x.op == "uninit" for x in vals):
                heap[c] = UNINIT
                continue
            if any(has_ref(x) for x in vals):
                if all(same_refs(x, v) for x in vals):
                    pass
                else:
                    return None
            heap[c] = mkcase(f, [(s.facts[f], x) for s, x in zip(g, vals)])
        m.heap = heap
        return m



    def switch(self, st, v, targets, otherwise):
        v = self.deref(st, v) if v.op == "ref" else v
        out = []
        c = self.case_atom(v)
        if c is not None:
            for s1, w in self.split_case(st, c):
                out += self.switch(s1, w if v is c else subst(v, {c: w}), targets, otherwise)
            return out
        if v.op == "int":
            for val, b in targets:
                if v.a[0] == val or (v.a[0] < 0 and any(v.a[0] + (1 << w) == val for w in (8, 16, 32, 64, 128))):
                    return [(st, b)]
            return [(st, otherwise)]
        lo, hi = rng(v, None)
        if v.op in ("in", "not", "band") or v.ty == "bool":
            tv = dict((val, b) for val, b in targets)
            for truth in (1, 0):
                b = tv.get(truth, otherwise)
                for s in self.assume(st, v, bool(truth)):
                    out.append((s, b))
            return out
        rest = st
        signed = lo < 0
        width = v.ty[1] * 8 if v.ty and v.ty[0] == "i" else 8 if signed and lo >= -128 and hi <= 127 else 64
        for val, b in targets:
            if signed and val >= (1 << (width - 1)):
                val -= 1 << width
            s = self.constrain(st, v, ((val, val),))
            if s is not None:
                out.append((s, b))
            if rest is not None:
                rest = self.constrain(rest, v, compl(((val, val),)))
        if rest is not None:
            out.append((rest, otherwise))
        return out

    def call(self, st, fr, term):
        callee, args = term[1], term[2]
        av = [self.operand(st, fr, a) for a in args]
        self.sites += 1
        if callee[0] == "fn":
            f = self.p.fns.get(callee[1])
            if f is not None and f[5] == "item" and f[3].endswith("}") and "{closure#" in f[3].rsplit("::", 1)[-1] and len(av) == 2:
                # Fn*::call* of a closure: (self, (args...))
                n = f[8]["argc"] - 1 if f[8] else 0
                t = av[1]
                if t.op == "agg" and t.a[0] == "tuple":
                    av = [av[0]] + list(t.a[3])
                else:
                    av = [av[0]] + [fld(t, "", str(i)) for i in range(n)]
            return self.typed_results(fr, term, self.call_key(st, fr, callee[1], av, term[5]))
        if callee[0] == "intr":
            return self.intrinsic(st, fr, callee[1], callee[2], av, term[5])
        if callee[0] == "ptr":
            v = self.operand(st, fr, callee[1])
            v = self.deref(st, v)
            return self.call_value(st, fr, v, av, term[5])
        if callee[0] == "virt":
            return self.external(st, "virt:" + callee[1], av)
        return self.external(st, str(callee[1]), av)

    def typed_results(self, fr, term, res):
        if term[4] is None or term[3][1]:
            return res
        t = None
        for _, v in res:
            if v.ty is None and v.op in ("ext", "mapget", "mapold", "default"):
                t = t or self.p.vty(fr.body["locals"][term[3][0]])
                typed(v, t)
        return res

    def call_value(self, st, fr, f, args, line=0):
        """call a closure / fn value with an argument list"""
        f = self.deref(st, f)
        if f.op == "case":
            return [r for s2, w in self.split_case(st, f) for r in self.call_value(s2, fr, w, args, line)]
        if f.op == "fn":
            return self.call_key(st, fr, f.a[0], args, line)
        if f.op == "agg" and f.a[0].startswith("closure:"):
            key = f.a[0][8:]
            body = self.p.fns[key][8]
            # closure bodies take (self, args...) ; self by ref when its type is a reference
            c = newcell()
            st = st.copy()
            st.heap[c] = f
            d = self.p.d(body["locals"][1])
            selfv = f if d[0] == "closure" or (d[0] == "ref" and not d[2]) else mkref(c, ())
            return self.call_key(st, fr, key, [selfv] + list(args), line)
        return self.external(st, "call:" + show(f)[:60], list(args))

    def call_key(self, st, fr, key, av, line=0):
        f = self.p.fns.get(key)
        if f is None:
            return self.external(st, key, av)
        name = f[3]
        prim = self.prims.get(name)
        if prim is None:
            prim = self.prims.match(name)
        if prim is not None:
            sp = self.split_args(st, av)
            if sp is not None:
                return [r for s2, av2 in sp for r in self.call_key(s2, fr, key, av2, line)]
            r = prim(self, st, fr, f, av, line)
            if r is not None:
                return r
        if f[8] is None:
            return self.external(st, name, av, f)
        if key in fr.stack and not (f[4] in ("core", "alloc", "std", "itertools", "vp_harness") and fr.stack.count(key) < 3) or (name in self.cut and fr.key not in self.p.rootkeys):
            return self.recursive(st, f, av)
        return self.exec_fn(st, key, av, fr.stack)

    def split_args(self, st, av):
        """case-valued structured arguments of a library model are split into separate states"""
        for i, a in enumerate(av):
            v = a
            loc = None
            while v.op == "ref":
                loc = v
                v = self.load(st, v.a[0], v.a[1])
            if v.op == "case" and not self.scalar_case(v):
                out = []
                for s2, w in self.split_case(st, v):
                    if loc is None:
                        out.append((s2, av[:i] + [w] + av[i + 1:]))
                    else:
                        s2 = s2.copy()
                        self.store(s2, loc.a[0], loc.a[1], w)
                        out.append((s2, av))
                return out
        return None

    def scalar_case(self, v):
        if v.ty == "bool" or isinstance(v.ty, tuple) and v.ty[0] in ("i", "set"):
            return True
        return all(w.op in ("int", "lin") or isint_term(w) or (w.op == "case" and self.scalar_case(w)) for _, w in v.a[1])

    def mut_targets(self, st, av):
        """references reachable from arguments"""
        refs = []
        seen = set()

        def rec(v):
            if v in seen:
                return
            seen.add(v)
            if v.op == "ref":
                refs.append(v)
                refs.extend(r for r in self.streams_in(st, v) if r not in refs)
            elif v.op == "agg":
                for x in v.a[3]:
                    rec(x)

        for v in av:
            rec(v)
        return refs

    def streams_in(self, st, ref):
        """references to streams that are held by what `ref` refers to (an adapter around a stream)"""
        out = []

        def rec(v, d):
            if v.op == "ref":
                c = self.load(st, v.a[0], v.a[1])
                if c.op == "agg" and c.a[0] in ("Out", "In"):
                    out.append(v)
                elif d < 4:
                    rec(c, d + 1)
            elif v.op == "agg" and d < 6:
                for x in v.a[3]:
                    rec(x, d + 1)

        c = self.load(st, ref.a[0], ref.a[1])
        if c.op == "ref" or c.op == "agg" and c.a[0] not in ("Out", "In") and not c.a[0].startswith("closure"):
            rec(c, 0)
        return out

    def adapter(self, old, new):
        """`old` after it was changed to `new`: an adapter keeps the stream it stands for"""
        if old.op == "ref":
            return old
        if old.op == "agg" and old.a[3] and has_ref(old):
            return mkagg(old.a[0], old.a[1], old.a[2], tuple(self.adapter(x, fld(new, old.a[1], n)) for n, x in zip(old.a[2], old.a[3])))
        return new

    def freeze(self, st, v, depth=0):
        """term for a value with references replaced by the content they point to"""
        if depth > 30:
            return v
        if v.op == "ref":
            return self.freeze(st, self.load(st, v.a[0], v.a[1]), depth + 1)
        if v.op == "agg" and v.a[3]:
            ty, va, names, vals = v.a
            return mkagg(ty if not ty.startswith("closure:") else "closure", va, names, tuple(self.freeze(st, x, depth + 1) for x in vals))
        if v.op == "agg" and v.a[0].startswith("closure:"):
            return mk("agg", "closure", "", (), ())
        if v.op in ("seq",):
            return mkseq(tuple(mk("el", self.freeze(st, i.a[0], depth + 1)) if i.op == "el" else i for i in v.a[0]))
        return v

    def external(self, st, name, av, f=None):
        """a function with no body and no model: uninterpreted, deterministic, may change what it
        can reach through mutable references"""
        st = st.copy()
        self.unmodelled[name] += 1
        fa = tuple(self.freeze(st, a) for a in av)
        st.ext = st.ext | {name}
        for j, r in enumerate(self.mut_targets(st, av)):
            try:
                self.setref(st, r, mk("extmut", name, j, fa))
            except Bail:
                pass
        return [(st, mk("ext", name, fa))]

    def recursive(self, st, f, av):
        st = st.copy()
        name = f[3]
        fa = []
        streams = []
        for r in self.mut_targets(st, av):
            v = self.deref(st, r)
            if v.op == "agg" and v.a[0] == "Out" and r not in streams:
                streams.append(r)
        seen = {}

        def fz(v, d=0):
            if v.op == "ref":
                c = self.load(st, v.a[0], v.a[1])
                if c.op == "agg" and c.a[0] == "Out":
                    return mk("stream")
                return fz(c, d + 1) if d < 30 else c
            if v.op == "agg" and v.a[3]:
                ty, va, names, vals = v.a
                return mkagg(ty if not ty.startswith("closure:") else "closure", va, names, tuple(fz(x, d + 1) for x in vals))
            return v

        fa = tuple(fz(a) for a in av)
        call = mk("rec", name, fa)
        for j, r in enumerate(self.mut_targets(st, av)):
            v = self.deref(st, r)
            if v.op == "agg" and v.a[0] == "Out":
                log = fld(v, "", "log")
                it = mk("call", call)
                newv = mk("agg", "Out", "", ("log", "pos"), (mkseq(items_of(log) + (it,)), add(fld(v, "", "pos"), item_len(it))))
                self.setref(st, r, newv)
            elif v.op == "agg" and v.a[0] == "In":
                n = typed(mk("reclen", call), ("i", 8, False))
                self.setref(st, r, mk("agg", "In", "", ("pos",), (add(fld(v, "", "pos"), n),)))
            else:
                try:
                    new = typed(mk("recmut", call, j), ("adt", v.a[0]) if v.op == "agg" and v.a[3] and not v.a[0].startswith("closure") else v.ty)
                    self.setref(st, r, self.adapter(v, new) if v.op in ("agg", "ref") and self.streams_in(st, r) else new)
                except Bail:
                    pass
        rt = f[8]["locals"][0]
        d = self.p.d(rt)
        rv = typed(mk("ret", call), self.p.vty(rt))
        if d[0] == "adt" and d[1] == "std::result::Result":
            # success path only; failures propagate like I/O errors
            okty = d[3][0]
            val = UNIT if self.p.size(okty) == 0 else typed(mk("retok", call), self.p.vty(okty))
            if self.rec_err:
                # the callee's outcome is a case of its own: what the caller does with a failure is part of the summary
                dn = self.discr_of(rv, rt)
                out = []
                for vn, dv, _ in d[4]:
                    s2 = self.constrain(st, dn, ((dv, dv),))
                    if s2 is None:
                        continue
                    out.append((s2, self.ok(val) if vn == "Ok" else self.er(typed(mk("reterr", call), self.p.vty(d[3][1])))))
                return out
            return [(st, self.ok(val))] + self.io_fail(st)
        return [(st, rv)]

    def io_fail(self, st):
        if not self.io_errors or st.err:
            return []
        s = st.copy()
        s.err = True
        return [(s, self.er(mk("ioerr")))]

    # ------------------------------------------------------------------ intrinsics
    def intrinsic(self, st, fr, name, tys, av, line):
        p = self.prims.get("intr:" + name)
        if p:
            return p(self, st, fr, tys, av, line)
        return self.external(st, "intr:" + name, av)

    # ------------------------------------------------------------------ loops
    def do_loop(self, fr, st0, H, blocks):
        region = (H, blocks)
        np = len(self.panics)
        if self.merging:
            st0 = self.simplify(st0)
        # 1. concrete unrolling when every decision is determined
        states = [st0]
        exits, rets = [], []
        ok = True
        total = 0
        for _ in range(300):
            nxt = []
            for s in states:
                ev = self.run(fr, [(s, H)], region)
                normal = [x for x in ev["exit"] if not x[0].err] + [x for x in ev["ret"] if not x[0].err]
                if ev["back"] and normal:
                    ok = False
                    break
                nxt += ev["back"]
                exits += ev["exit"]
                rets += ev["ret"]
            if not ok:
                break
            if not nxt:
                return {"ret": rets, "exit": exits}
            total += len(nxt)
            if len(nxt) > 300 or total > 1500:
                ok = False
                break
            states = nxt
        del self.panics[np:]
        return self.sym_loop(fr, st0, region)

    def diff(self, old, new, path, kdepth, out):
        if old is new:
            return
        if new.op == "agg" and old.op != "agg" and new.a[1] == "" and old.op not in ("uninit", "ref", "int") and not new.a[0].startswith("closure"):
            old = mk("agg", new.a[0], "", new.a[2], tuple(fld(old, "", n) for n in new.a[2]))
            if old is new:
                return
        if old.op == "agg" and new.op == "agg" and old.a[0] == new.a[0] and old.a[1] == new.a[1] and old.a[2] == new.a[2]:
            for n, a, b in zip(old.a[2], old.a[3], new.a[3]):
                if a is not b:
                    self.diff(a, b, path + (("F", old.a[0], old.a[1], n),), kdepth, out)
            return
        if new.op == "upd" and new.a[0] is old and not contains(new.a[1], mk("k", kdepth)):
            i = new.a[1]
            self.diff(idx(old, i), new.a[2], path + (("I", i),), kdepth, out)
            return
        if new.op == "upd" and old.op == "upd" and new.a[0] is old.a[0] and new.a[1] is old.a[1]:
            self.diff(old.a[2], new.a[2], path + (("I", new.a[1]),), kdepth, out)
            return
        out.append((path, old, new))

    def getL(self, v, path):
        for s in path:
            if s[0] == "F":
                v = fld(v, s[2], s[3])
            else:
                v = idx(v, s[1])
        return v

    def setL(self, v, path, new):
        if not path:
            return new
        s = path[0]
        if s[0] == "F":
            if v.op == "agg":
                i = v.a[2].index(s[3])
                return mkagg(v.a[0], v.a[1], v.a[2], v.a[3][:i] + (self.setL(v.a[3][i], path[1:], new),) + v.a[3][i + 1:])
            raise Bail("setL on symbolic")
        old = idx(v, s[1])
        nv = self.setL(old, path[1:], new)
        if v.op == "upd" and v.a[1] is s[1]:
            return mk("upd", v.a[0], s[1], nv)
        return mk("upd", v, s[1], nv)

    def force(self, st, key, path, sample):
        """make heap[key] concrete enough to address path (expanding symbolic structs like `sample`)"""
        def rec(v, smp, path):
            if not path:
                return v
            s = path[0]
            if s[0] == "F":
                if v.op != "agg":
                    if smp is None or smp.op != "agg":
                        raise Bail("force")
                    v = mk("agg", smp.a[0], smp.a[1], smp.a[2], tuple(fld(v, smp.a[1], n) for n in smp.a[2]))
                i = v.a[2].index(s[3])
                sv = smp.a[3][smp.a[2].index(s[3])] if smp is not None and smp.op == "agg" and s[3] in smp.a[2] else None
                return mk("agg", v.a[0], v.a[1], v.a[2], v.a[3][:i] + (rec(v.a[3][i], sv, path[1:]),) + v.a[3][i + 1:])
            if path[1:]:
                old = idx(v, s[1])
                sv = idx(smp, s[1]) if smp is not None else None
                nv = rec(old, sv, path[1:])
                if nv is old:
                    return v
                return mk("upd", v.a[0] if v.op == "upd" and v.a[1] is s[1] else v, s[1], nv)
            return v

        st.heap[key] = rec(st.heap[key], sample, path)

    def classify(self, old, new, depth):
        if isint_term(old) and isint_term(new):
            d = sub(new, old)
            if d.op == "int":
                return ("ind", d.a[0])
            return ("acc",)
        if is_seq(new):
            io, inw = items_of(old) if is_seqlike(old) else None, items_of(new)
            if io is not None and inw[: len(io)] == io:
                return ("seq",)
            if io and inw and len(inw) >= len(io) and inw[: len(io) - 1] == io[:-1] and io[-1].op == "lit" and inw[len(io) - 1].op == "lit" and inw[len(io) - 1].a[0].startswith(io[-1].a[0]):
                return ("seq",)
        if new.op == "upd" and new.a[0] is old and new.a[1] is mk("k", depth):
            return ("map",)
        return ("phi",)

    def sym_loop(self, fr, st0, region):
        depth = st0.depth
        k = typed(mk("k", depth), ("i", 8, False))
        gen = {}  # (cell, Lpath) -> [kind, init, id, sample]
        np = len(self.panics)
        nid = [0]
        # first iteration starts with index 0 known only symbolically
        for attempt in range(14):
            del self.panics[np:]
            st = st0.copy()
            st.depth = depth + 1
            for (cell, path), g in sorted(gen.items(), key=lambda x: (x[0][0], len(x[0][1]))):
                if path:
                    self.force(st, cell, path, g[3])
                kind, init, gid = g[0], g[1], g[2]
                if kind[0] == "ind":
                    v = add(init, scale(k, kind[1]))
                elif kind[0] == "acc":
                    v = add(init, typed(mk("pv", depth, gid), None))
                elif kind[0] == "seq":
                    v = mkseq(items_of(init) + (mk("pseq", depth, gid),))
                elif kind[0] == "map":
                    v = mk("pmap", init, depth, gid)
                else:
                    v = typed(mk("pv", depth, gid), "bool" if not path and cell in self.boolcells else init.ty if init.op not in ("int", "lin") else INT_TY.get(gid))
                    if init.op == "agg" and init.a[0] != "tuple" and not init.a[0].startswith("closure"):
                        v = typed(v, ("adt", init.a[0]))
                st.heap[cell] = self.setL(st.heap[cell], path, v)
            base = st.copy()
            ev = self.run(fr, [(st, region[0])], region)
            changed = False
            for b in ev["back"]:
                if b.err:
                    continue
                for cell in base.heap:
                    ov = base.heap[cell]
                    nv = b.heap.get(cell, UNINIT)
                    if ov is nv or nv.op == "uninit" or ov.op == "uninit":
                        continue
                    out = []
                    self.diff(ov, nv, (), depth, out)
                    for path, o, n in out:
                        if self.note(gen, cell, path, o, n, depth, base, st0, nid, nv):
                            changed = True
            if not changed:
                break
        else:
            raise Bail("loop does not stabilise")
        return self.finish_loop(fr, st0, base, ev, gen, k, depth)

    def note(self, gen, cell, path, o, n, depth, base, st0, nid, sample):
        # already covered by an enclosing or equal generalised location?
        for plen in range(len(path), -1, -1):
            g = gen.get((cell, path[:plen]))
            if g is None:
                continue
            if plen < len(path):
                if g[0][0] == "phi":
                    return False
                g[0] = ("phi",)
                return True
            kind = g[0]
            if kind[0] == "phi":
                return False
            c = self.classify(o, n, depth)
            if kind[0] == "ind":
                if c == kind:
                    return False
                g[0] = ("acc",) if c[0] in ("ind", "acc") else ("phi",)
                return True
            if kind[0] == "acc":
                if c[0] in ("ind", "acc") and mk("pv", depth, g[2]) not in lin_parts(sub(n, o))[1] :
                    return False
                g[0] = ("phi",)
                return True
            if kind[0] == "seq":
                if c[0] == "seq":
                    return False
                g[0] = ("phi",)
                return True
            if kind[0] == "map":
                if n.op == "upd" and n.a[0] is o and n.a[1] is mk("k", depth):
                    return False
                g[0] = ("phi",)
                return True
        # drop nested generalised locations below this one
        for key in [x for x in gen if x[0] == cell and len(x[1]) > len(path) and x[1][: len(path)] == path]:
            del gen[key]
        init = self.getL(st0.heap[cell], path)
        c = self.classify(o, n, depth)
        if c[0] == "map" or c[0] == "seq" or c[0] in ("ind", "acc"):
            pass
        _gid[0] += 1
        gid = _gid[0]
        if c[0] == "phi" and isint_term(init):
            INT_TY[gid] = n.ty
        gen[(cell, path)] = [c, init, gid, sample]
        return True

    def finish_loop(self, fr, st0, base, ev, gen, k, depth):
        backs = [b for b in ev["back"] if not b.err]
        exits = ev["exit"]
        rets = ev["ret"]
        f0 = st0.facts
        # variables
        vars_ = []
        for (cell, path), g in sorted(gen.items(), key=lambda x: x[1][2]):
            if g[0][0] == "ind":
                continue
            # sequences and accumulators are described by what each iteration adds: their start is outside the loop
            init = EMPTY if g[0][0] == "seq" else I(0) if g[0][0] == "acc" else g[1]
            vars_.append((cell, path, g[0][0], init, g[2]))

        def delta(s):
            return tuple(sorted(((a, S) for a, S in s.facts.items() if f0.get(a) != S), key=lambda p: dig(p[0])))

        alts = []
        for b in backs:
            upd = {}
            for cell, path, kind, init, gid in vars_:
                old = self.getL(base.heap[cell], path)
                new = self.getL(b.heap.get(cell, base.heap[cell]), path) if path else b.heap.get(cell, UNINIT)
                if kind == "acc":
                    upd[gid] = sub(new, old)
                elif kind == "seq":
                    io, inw = items_of(old), items_of(new)
                    upd[gid] = inw[len(io):]
                    if inw[: len(io)] != io:
                        # merged literal
                        upd[gid] = (mk("opaque", "litmerge"),) + inw[len(io):]
                elif kind == "map":
                    upd[gid] = new.a[2] if new.op == "upd" else idx(old, k)
                else:
                    upd[gid] = new
            alts.append((delta(b), upd))
        normal_exits = [(delta(s)) for s, _ in exits if not s.err] + [delta(s) for s, _ in rets if not s.err]
        # counted loop?
        N = None
        ex = set(normal_exits)
        if len(ex) == 1 and len(next(iter(ex))) == 1:
            (atom, S), = next(iter(ex))
            ca, da = lin_parts(atom)
            kc = da.get(k, 0)
            restn = mklin(ca, {t: v for t, v in da.items() if t is not k})
            okb = all(any(a is atom and not inter(T, S) for a, T in d) for d, _ in alts)
            if okb and kc in (1, -1) and not contains(restn, k) and not has_pv(restn, depth):
                bts = [T for d, _ in alts for x, T in d if x is atom]
                if kc == -1 and len(S) == 1 and all(T[0][0] > S[0][1] for T in bts):
                    # rest - k <= c
                    N = sub(restn, I(S[0][1]))
                elif kc == 1 and len(S) == 1 and all(T[-1][1] < S[0][0] for T in bts):
                    # rest + k >= c
                    N = sub(I(S[0][0]), restn)
                elif len(S) == 1 and S[0][0] == S[0][1]:
                    # rest +- k == c
                    N = sub(I(S[0][0]), restn) if kc == 1 else sub(restn, I(S[0][0]))
                if N is not None:
                    alts = [(tuple((a, T) for a, T in d if a is not atom), u) for d, u in alts]
        pure = N is not None
        exfacts = tuple(sorted(ex, key=tdig)) if not pure else ()

        def pvs(x, acc):
            def f(n):
                if n.op in ("pv", "pseq") and n.a[0] == depth:
                    acc.add(n.a[1])
                elif n.op == "pmap" and n.a[1] == depth:
                    acc.add(n.a[2])
            walk(x, f)

        cache = {}

        def core(outs):
            """loop term restricted to the variables in outs (ids)"""
            V = set(outs)
            if not pure:
                pvs(exfacts, V)
            while True:
                n0 = len(V)
                groups = group(V)
                for fs, ups in groups:
                    pvs(fs, V)
                    for u in ups:
                        pvs(u, V)
                if len(V) == n0:
                    break
            key = frozenset(V)
            if key in cache:
                return cache[key]
            info = {gid: (kind, init) for _, _, kind, init, gid in vars_}
            mask = {}
            for gid in info:
                mask[mk("pv", depth, gid)] = mk("pv", depth, "?")
                mask[mk("pseq", depth, gid)] = mk("pseq", depth, "?")

            def sortkey(gid):
                kind, init = info[gid]
                us = sorted(tdig(_subst_tuple(a[1].get(gid), mask)) for a in alts)
                return (kind, dig(init), us)

            ids = sorted((g for g in V if g in info), key=sortkey)
            ren = {}
            for i, g in enumerate(ids):
                n = mk("pv", depth, g)
                ren[n] = ("bpv", i, n.ty)
                ren[mk("pseq", depth, g)] = ("bpseq", i, None)
            for _, _, kind, init, gid in vars_:
                if kind == "map" and gid in V:
                    ren[mk("pmap", init, depth, gid)] = ("bpmap", ids.index(gid), None)
            groups = group(V)
            a2 = []
            gs = sorted(V)
            for fs, ups in groups:
                ups = dict(zip(gs, ups))
                a2.append((sort_facts(close_term(fs, k, ren)), tuple(close_term(ups[g], k, ren) for g in ids)))
            a2.sort(key=tdig)
            if pure:
                NN = N
            else:
                NN = mk("until", tuple(sorted((sort_facts(f) for f in close_term(exfacts, k, ren)), key=tdig)))
            L = mk("loop", 0, NN, tuple((info[g][0], info[g][1]) for g in ids), tuple(a2))
            cache[key] = (L, {g: i for i, g in enumerate(ids)})
            return cache[key]

        def group(V):
            """alternatives merged by equal updates of V"""
            by = {}
            for d, u in alts:
                ups = tuple(u.get(g, ()) for g in sorted(V))
                by.setdefault(ups, []).append(d)
            if len(by) == 1 and pure:
                return [((), next(iter(by)))]
            res = []
            for ups, ds in by.items():
                for d in merge_facts(ds):
                    res.append((d, ups))
            return res

        # substitution at exits
        def exit_state(s):
            # which placeholders occur?
            m = {}
            need = set()
            info = {gid: (kind, init) for _, _, kind, init, gid in vars_}
            if pure and not s.err:
                m[k] = N
            elif not s.err or True:
                L0, _ = core(set())
                m[k] = typed(mk("kx", L0), ("i", 8, False))
            for gid, (kind, init) in info.items():
                if kind == "seq":
                    L, ix = core({gid})
                    m[mk("pseq", depth, gid)] = mk("rep", L, ix[gid])
                elif kind == "acc":
                    L, ix = core({gid})
                    m[mk("pv", depth, gid)] = mksum(L, ix[gid])
                elif kind == "map":
                    L, ix = core({gid})
                    m[mk("pmap", init, depth, gid)] = mk("mapx", L, ix[gid], init)
                else:
                    L, ix = core({gid})
                    m[mk("pv", depth, gid)] = typed(mk("phix", L, ix[gid]), mk("pv", depth, gid).ty)
            return m

        out = {"ret": [], "exit": []}
        m = None
        for kind, lst in (("exit", exits), ("ret", rets)):
            for s, x in lst:
                if m is None:
                    m = exit_state(s)
                s2 = s.copy()
                s2.depth = depth
                memo = {}
                for c, v in s.heap.items():
                    s2.heap[c] = subst(v, m, memo)
                s2.facts = {}
                dead = False
                for a, S in s.facts.items():
                    if f0.get(a) == S:
                        s2.facts[a] = S
                        continue
                    na = subst(a, m, memo)
                    if na is a:
                        s2.facts[a] = S
                        continue
                    s3 = self.constrain(s2, na, S)
                    if s3 is None:
                        if pure or True:
                            dead = True
                        break
                    s2 = s3
                if dead:
                    if not pure:
                        raise Bail("inconsistent exit facts")
                    # a counted exit is consistent by construction
                    s2 = s.copy()
                    s2.depth = depth
                    s2.facts = dict(f0)
                    for c, v in s.heap.items():
                        s2.heap[c] = subst(v, m, memo)
                if kind == "ret":
                    x = subst(x, m, memo)
                out[kind].append((s2, x))
        return out


_gid = [0]
INT_TY = {}
DISCR = {}


def mksum(L, i):
    if L.a[1].op == "int" and L.a[1].a[0] == 0:
        return I(0)
    """value accumulated by variable i of loop L"""
    alts = L.a[3]
    if L.a[1].op != "until" and len(alts) == 1 and not alts[0][0]:
        x = alts[0][1][i]
        if x.op == "int":
            return scale(L.a[1], x.a[0])
    return typed(mk("sum", L, i), ("i", 8, False))


def booleq(a, b):
    if a.op == "int":
        return b if a.a[0] else neg(b)
    if b.op == "int":
        return a if b.a[0] else neg(a)
    if a is b:
        return TRUE
    if neg(a) is b:
        return FALSE
    # a value that is decided by one side's two cases
    x, y = sorted((a, b), key=dig)
    return typed(mk("iff", x, y), "bool")


REBUILD["iff"] = booleq
REBUILD["sum"] = lambda L, i: mksum(L, i)


def _subst_tuple(x, m):
    from .terms import _subst_any
    return _subst_any(x, m, {})


def sort_facts(fs):
    return tuple(sorted((orient(a, S) for a, S in fs), key=lambda p: dig(p[0])))


_hc = {}


def has_case(v):
    r = _hc.get(v)
    if r is None:
        r = v.op in ("case", "alt", "in")
        if not r:
            r = _hc_any(v.a)
        _hc[v] = r
    return r


def _hc_any(x):
    if isinstance(x, Nd):
        return has_case(x)
    if isinstance(x, tuple):
        return any(_hc_any(y) for y in x)
    return False


def has_ref(v):
    found = [False]

    def f(x):
        if x.op == "ref":
            found[0] = True

    walk(v, f)
    return found[0]


def same_refs(a, b):
    """same shape with identical references, so that a case never selects between references"""
    if a is b:
        return True
    if a.op == "agg" and b.op == "agg" and a.a[:3] == b.a[:3]:
        return all(same_refs(x, y) for x, y in zip(a.a[3], b.a[3]))
    return not has_ref(a) and not has_ref(b)


def isint_term(v):
    return v.op in ("int", "lin", "trunc", "sum", "len", "rd", "replen") or (v.ty is not None and v.ty != "bool" and isinstance(v.ty, tuple) and v.ty[0] == "i")


def is_seq(v):
    return v.op in ("seq", "str")


def is_seqlike(v):
    return v.op in ("seq", "str", "arg", "fld", "rep", "bytes", "slice", "fill", "idx", "upd", "map0", "mapx", "ret", "retok")


def contains(n, x):
    found = [False]

    def f(y):
        if y is x:
            found[0] = True

    walk(n, f)
    return found[0]


def merge_facts(ds):
    """merge conjunctions that differ in one atom only"""
    cur = [dict(d) for d in ds]
    ch = True
    while ch:
        ch = False
        for i in range(len(cur)):
            for j in range(i + 1, len(cur)):
                a, b = cur[i], cur[j]
                if set(a) == set(b):
                    df = [x for x in a if a[x] != b[x]]
                    if not df:
                        del cur[j]
                        ch = True
                    elif len(df) == 1:
                        x = df[0]
                        u = union(a[x], b[x])
                        n = dict(a)
                        if u == universe(x):
                            del n[x]
                        else:
                            n[x] = u
                        cur[i] = n
                        del cur[j]
                        ch = True
                elif set(a) < set(b) and all(a[x] == b[x] for x in a):
                    del cur[j]
                    ch = True
                elif set(b) < set(a) and all(a[x] == b[x] for x in b):
                    del cur[i]
                    ch = True
                if ch:
                    break
            if ch:
                break
    out = [tuple(sorted(d.items(), key=lambda p: dig(p[0]))) for d in cur]
    out.sort(key=tdig)
    return out


def _rb_loop(z, N, vars_, alts):
    return mk("loop", z, N, vars_, tuple(sorted(((sort_facts(f), u) for f, u in alts), key=tdig)))


def _rb_until(fs):
    return mk("until", tuple(sorted((sort_facts(f) for f in fs), key=tdig)))


REBUILD["loop"] = _rb_loop
REBUILD["until"] = _rb_until
