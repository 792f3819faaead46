"""Comparison of two path summaries over the same inputs.

equal     -> no differences
differing -> a list of Diff, each with the place, the two minimal differing terms, the facts under which they
             differ, and whether the difference is definite (both sides are understood by the term algebra) or
             undecided (an operation the algebra has no theory for is involved)
"""
from .terms import *
from .terms import _under
from .engine import DISCR
import itertools as _it
import time


class Diff:
    def __init__(self, where, spec, code, facts, definite):
        self.where, self.spec, self.code, self.facts, self.definite = where, spec, code, facts, definite

    def text(self):
        fs = " and ".join("%s in %s" % (show(a)[:120], show_iv(S)) for a, S in list(self.facts.items())[:8])
        return "at %s: expected %s, found %s%s" % (self.where or "result", sh(self.spec), sh(self.code), (" when " + fs) if fs else "")


def sh(x):
    if isinstance(x, Nd):
        return show(x)[:400]
    return str(x)[:400]


class Budget(Exception):
    pass


# operations with a theory: two structurally different normal forms built from these differ for some input
TRUSTED = {
    "int", "str", "lit", "arg", "fld", "idx", "len", "discr", "rd", "bits", "bytes", "lin", "agg", "seq", "le", "el",
    "in", "not", "band", "input", "case", "alt", "rep", "loop", "sum", "setbits", "ret", "retok", "reterr", "rec", "call", "span",
    "bk", "k", "pv", "pseq", "pmap", "bpv", "bpseq", "bpmap", "stream", "reclen", "itemlen", "ioerror", "float", "slice",
    "fa", "fmt", "crc32", "overwrite", "seek", "strid", "utf8", "trunc", "has", "mapget", "ins", "rem", "map0", "mapof",
    "entries", "mapfrom", "upd", "sorted", "key", "bound", "self", "recmut", "repk", "cast", "split",
}
# library functions that are never the identity on all inputs
NONID = (
    "to_lowercase", "to_uppercase", "::trim", "to_ascii_", "::replace", "::escape_", "::rev", "::starts_with",
    "::ends_with", "::strip_prefix", "::strip_suffix", "binary_search", "to_str", "::join",
)


class Cmp:
    def __init__(self, spec_nodes=None, budget=60000, seconds=25, fields=None):
        self.out = []
        self.fields = fields
        self.budget = budget
        self.spec = spec_nodes or set()
        self.spec_ext = {n.a[0] for n in self.spec if n.op in ("ext", "extmut")}
        self.lvl = 1000
        self.matched = self.pairs = 0
        self.end = time.time() + seconds
        self._known = {}

    # ---- is a code-side term understood?
    def known(self, x):
        if isinstance(x, tuple):
            return all(self.known(y) for y in x)
        if not isinstance(x, Nd):
            return True
        r = self._known.get(x)
        if r is None:
            if x in self.spec:
                r = True
            elif x.op in ("ext", "extmut"):
                nm = str(x.a[0])
                r = (x.a[0] in self.spec_ext or any(s in nm for s in NONID)) and self.known(x.a[1:])
            elif x.op == "agg" and x.a[0].startswith("closure"):
                r = False
            else:
                r = x.op in TRUSTED and self.known(x.a)
                if r and x.op == "fld" and self.fields is not None and x.a[2] not in self.fields:
                    r = False
            self._known[x] = r
        return r

    def tick(self):
        self.budget -= 1
        if self.budget < 0 or time.time() > self.end:
            raise Budget()

    # ---- facts
    def constrain(self, F, f, S):
        g, c, s = split_const(f)
        if g is None:
            return F if inter(S, ((c, c),)) else None
        T = shift(S, -c)
        if s < 0:
            T = negiv(T)
        cur = universe(g, F)
        if g.op == "lin":
            lo, hi = rng(g, F)
            cur = inter(cur, iv(lo, hi))
        new = inter(cur, T)
        if not new:
            return None
        if new == cur and g in F:
            return F
        F = dict(F)
        F[g] = new
        return F

    def add_facts(self, F, facts):
        """list of fact environments refining F by facts (atoms simplified under F; case atoms split)"""
        envs = [F]
        for a, S in facts:
            nxt = []
            for E in envs:
                nxt += self.add_fact(E, a, S)
            envs = nxt
            if len(envs) > 400:
                raise Budget()
        return envs

    def add_fact(self, E, a, S):
        self.tick()
        b = subst_facts(E)(a) if E else a
        if b is not a and a.op not in ("not", "in", "band", "case"):
            E = self.constrain(E, a, S)
            if E is None:
                return []
        c = self.case_in(b)
        if c is not None:
            out = []
            for T, v in c.a[1]:
                for E2 in self.add_fact(E, c.a[0], T):
                    out += self.add_fact(E2, subst(b, {c: v}), S)
            return out
        if b.op in ("not",):
            return self.add_fact(E, b.a[0], tuple(sorted((1 - h, 1 - l) for l, h in inter(S, ((0, 1),)))))
        if b.op == "in":
            out = []
            if inter(S, ((1, 1),)):
                out += self.add_fact(E, b.a[0], b.a[1])
            if inter(S, ((0, 0),)):
                out += self.add_fact(E, b.a[0], minus(universe(b.a[0]), b.a[1]))
            return out
        if b.op == "band":
            out = []
            if inter(S, ((1, 1),)):
                for E1 in self.add_fact(E, b.a[0], ((1, 1),)):
                    out += self.add_fact(E1, b.a[1], ((1, 1),))
            if inter(S, ((0, 0),)):
                out += self.add_fact(E, b.a[0], ((0, 0),))
                for E1 in self.add_fact(E, b.a[0], ((1, 1),)):
                    out += self.add_fact(E1, b.a[1], ((0, 0),))
            return out
        E2 = self.constrain(E, b, S)
        return [E2] if E2 is not None else []

    def case_in(self, b):
        if b.op == "case":
            return b
        if b.op == "lin":
            for t, _ in b.a[1]:
                if t.op == "case":
                    return t
        # a case buried in the address of an atom
        found = []

        def f(n):
            if not found and n.op == "case" and dang(n) == 0:
                found.append(n)

        if b.op in ("rd", "bits", "bytes", "fld", "idx", "discr", "len", "trunc", "strid"):
            walk(b, f)
        return found[0] if found else None

    def feasible(self, F):
        for a, S in F.items():
            if a.op == "lin":
                lo, hi = rng(a, {k: v for k, v in F.items() if k is not a})
                if not inter(S, iv(lo, hi)):
                    return False
            if a.op == "discr" and a.a[0].op == "agg":
                m = DISCR.get(a)
        return True

    # ---- summaries
    def summaries(self, spec, code):
        sk = {(fs, rs, tuple(os)): 1 for fs, ks, rs, os in spec if ks == "ret"}
        ck = {(fs, rs, tuple(os)): 1 for fs, ks, rs, os in code if ks == "ret"}
        self.matched = sum(1 for k in sk if k in ck)
        # each side partitions the inputs, so a pair of identical paths accounts for all of its inputs
        sp = [p for p in spec if p[1] != "ret" or (p[0], p[2], tuple(p[3])) not in ck]
        co = [p for p in code if p[1] != "ret" or (p[0], p[2], tuple(p[3])) not in sk]
        self.pairs = 0
        for fs, ks, rs, os in sp:
            if ks == "panic":
                continue
            base = None
            for fc, kc, rc, oc in co:
                if quick_disjoint(fs, fc):
                    continue
                if base is None:
                    base = self.add_facts({}, fs)
                self.pairs += 1
                for F in base:
                    for G in self.add_facts(F, fc):
                        if not self.feasible(G):
                            continue
                        n0 = len(self.out)
                        if ks != kc:
                            self.emit("outcome", mk("str", ks), mk("str", kc), G)
                        else:
                            self.cmp(rs, rc, G, "return value")
                            ds, dc = dict(os), dict(oc)
                            for nm in sorted(set(ds) | set(dc)):
                                a, b = ds.get(nm), dc.get(nm)
                                if a is None or b is None:
                                    x = mk("str", "unchanged")
                                    self.emit(nm, a or x, b or x, G)
                                else:
                                    self.cmp(a, b, G, "output " + nm)
                        if len(self.out) > n0:
                            fk = all(self.known(a) for a, _ in fc)
                            for d in self.out[n0:]:
                                if d.definite and not (fk and self.witness(d.facts, fs, fc, spec, code)):
                                    d.definite = False
                            if any(d.definite for d in self.out[n0:]):
                                return

    def witness(self, G, fs, fc, spec, code):
        """the facts of a difference must single out one path on each side"""
        for own, paths in ((fs, spec), (fc, code)):
            for f, k, r, o in paths:
                if f == own or quick_disjoint(f, own):
                    continue
                if any(self.feasible(E) for E in self.add_facts(G, f)):
                    return False
        return True

    def emit(self, where, a, b, F, definite=True):
        if not self.feasible(F):
            return
        self.out.append(Diff(where, a, b, F, definite and self.known(a) and self.known(b)))
        if len(self.out) > 200:
            raise Budget()

    # ---- terms
    def cmp(self, a, b, F, w):
        if a is b:
            return
        self.tick()
        if F:
            f = subst_facts(F)
            a, b = f(a), f(b)
            if a is b:
                return
        for x in (a, b):
            if x.op == "case":
                return self.split(x, a, b, F, w)
        if a.op == "agg" and b.op == "agg":
            if a.a[0] == b.a[0] and a.a[1] == b.a[1] and a.a[2] == b.a[2]:
                for n, x, y in zip(a.a[2], a.a[3], b.a[3]):
                    self.cmp(x, y, F, w + "." + n)
                return
            return self.emit(w, a, b, F, a.a[0] == b.a[0] and a.a[1] != b.a[1])
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x.op == "agg" and y.op != "agg":
                if x.a[1]:
                    dn = mk("discr", y)
                    S = F.get(dn)
                    m = DISCR.get(dn, {})
                    vs = {m.get(v) for v in range(S[0][0], S[-1][1] + 1)} if S and S[-1][1] - S[0][0] < 300 else None
                    if vs is not None and x.a[1] not in vs:
                        return self.emit(w, a, b, F)
                    if vs is not None and vs != {x.a[1]}:
                        return self.emit(w, a, b, F)
                    if vs is None:
                        return self.emit(w, a, b, F, y.op in ("arg", "fld", "idx"))
                for n, v in zip(x.a[2], x.a[3]):
                    z = fld(y, x.a[1], n)
                    self.cmp(z if sw else v, v if sw else z, F, w + "." + n)
                return
        if is_sq(a) or is_sq(b):
            ia, ib = seq_items(a), seq_items(b)
            if ia is not None and ib is not None:
                return self.items(ia, ib, F, w)
            return self.emit(w, a, b, F)
        if isnum(a) and isnum(b):
            return self.nums(a, b, F, w)
        if isbool(a) or isbool(b):
            return self.bools(a, b, F, w)
        if a.op == b.op and len(a.a) == len(b.a):
            return self.args(a, b, F, w)
        self.emit(w, a, b, F)

    def args(self, a, b, F, w):
        if a.op in ("rep", "phix", "mapx", "sum", "kx"):
            return self.loops(a, b, F, w)
        if a.op == "agg":
            return self.emit(w, a, b, F)
        n0 = len(self.out)
        for x, y in zip(a.a, b.a):
            if not self.arg(x, y, F, w + "/" + a.op):
                del self.out[n0:]
                return self.emit(w, a, b, F)

    def arg(self, x, y, F, w):
        """False: the enclosing terms are themselves the minimal difference"""
        if x is y or x == y:
            return True
        if isinstance(x, Nd) and isinstance(y, Nd):
            self.cmp(x, y, F, w)
            return True
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return all(self.arg(p, q, F, w) for p, q in zip(x, y))
        return False

    def split(self, x, a, b, F, w):
        f = x.a[0]
        for S, v in x.a[1]:
            for G in self.add_fact(F, f, S):
                self.cmp(v if x is a else a, v if x is b else b, G, w)

    def nums(self, a, b, F, w):
        d = sub(b, a)
        if d.op == "int":
            if d.a[0]:
                self.emit(w, a, b, F)
            return
        c, parts = lin_parts(d)
        for t in parts:
            if t.op == "case":
                for S, v in t.a[1]:
                    for G in self.add_fact(F, t.a[0], S):
                        self.nums(subst(a, {t: v}), subst(b, {t: v}), G, w) if True else None
                return
        lo, hi = rng(d, F)
        if lo == hi == 0:
            return
        if c == 0 and len(parts) == 2:
            (t, kt), (u, ku) = parts.items()
            if kt == -ku and t.op == u.op and t.op not in ("int", "lin"):
                # d = b - a : positive part from code
                x, y = (u, t) if kt > 0 else (t, u)
                return self.args(x, y, F, w) if len(x.a) == len(y.a) and x.a else self.emit(w, a, b, F)
        if a.op == b.op and a.op not in ("lin", "int") and len(a.a) == len(b.a):
            return self.args(a, b, F, w)
        if any(has_loop(t) for t in parts):
            # pair the terms that come out of loops
            if c == 0 and self.match_terms(parts, F, w):
                return
            return self.emit(w, a, b, F, False)
        self.emit(w, a, b, F)

    def match_terms(self, parts, F, w):
        pos = [(t, k) for t, k in parts.items() if k > 0]
        neg = {t: -k for t, k in parts.items() if k < 0}
        if len(pos) != len(neg):
            return False
        for t, k in pos:
            for u, ku in neg.items():
                if ku != k or u.op != t.op or len(u.a) != len(t.a) or not t.a:
                    continue
                n0 = len(self.out)
                self.args(u, t, F, w)
                same = len(self.out) == n0
                del self.out[n0:]
                if same:
                    del neg[u]
                    break
            else:
                return False
        return True

    def bools(self, a, b, F, w):
        for x, y in ((a, b), (b, a)):
            if x.op in ("in", "not", "band"):
                for val in (0, 1):
                    for G in self.add_fact(F, x, ((val, val),)):
                        f = subst_facts(G)
                        z = f(y)
                        if z is I(val):
                            continue
                        if z.op == "int":
                            self.emit(w, I(val) if x is a else z, z if x is a else I(val), G)
                            continue
                        # not decided by x's atoms: decide z itself
                        for v2 in (0, 1):
                            if v2 == val:
                                continue
                            for H in self.add_fact(G, z, ((v2, v2),)):
                                self.emit(w, a, b, H)
                return
        if a.op == b.op and len(a.a) == len(b.a):
            return self.args(a, b, F, w)
        self.emit(w, a, b, F)

    # ---- sequences
    def items(self, ia, ib, F, w):
        self.tick()
        ia, ib = list(ia), list(ib)
        while True:
            while ia and ib and ia[0] is ib[0]:
                ia.pop(0)
                ib.pop(0)
            while ia and ib and ia[-1] is ib[-1]:
                ia.pop()
                ib.pop()
            if ia and ib and ia[0].op == "lit" and ib[0].op == "lit" and ia[0] is not ib[0]:
                x, y = ia[0].a[0], ib[0].a[0]
                n = 0
                while n < len(x) and n < len(y) and x[n] == y[n]:
                    n += 1
                if n:
                    ia[0:1] = [mk("lit", x[n:])] if x[n:] else []
                    ib[0:1] = [mk("lit", y[n:])] if y[n:] else []
                    continue
            break
        if not ia and not ib:
            return
        for lst in (ia, ib):
            for it in lst:
                if it.op == "alt" or (it.op == "span" and it.a[0].op == "case"):
                    c = it if it.op == "alt" else it.a[0]
                    for S, v in c.a[1]:
                        for G in self.add_fact(F, c.a[0], S):
                            f = subst_facts(G)
                            na = items_of(f(mkseq(tuple(rep1(ia, it, v)))))
                            nb = items_of(f(mkseq(tuple(rep1(ib, it, v)))))
                            self.items(na, nb, G, w)
                    return
        if len(ia) == len(ib):
            n0 = len(self.out)
            ok = True
            for i, (x, y) in enumerate(zip(ia, ib)):
                if x is y:
                    continue
                if x.op != y.op:
                    ok = False
                    break
                if x.op == "lit":
                    ok = False
                    break
                self.args(x, y, F, w + "[%d]" % i)
            if ok:
                return
            del self.out[n0:]
        for i in range(min(len(ia), len(ib))):
            x, y = ia[i], ib[i]
            if x is y:
                continue
            break
        self.emit(w, mkseq(tuple(ia)), mkseq(tuple(ib)), F)

    # ---- loops
    def loops(self, a, b, F, w):
        La, Lb = a.a[0], b.a[0]
        ra, rb = a.a[1:], b.a[1:]
        va, vb = La.a[2], Lb.a[2]
        if len(va) != len(vb):
            return self.emit(w, a, b, F, False)
        n = len(va)
        if n > 4:
            perms = [tuple(range(n))]
        else:
            perms = list(_it.permutations(range(n)))
        best = None
        n0 = len(self.out)
        for pm in perms:
            # pm[i]: code variable matched with spec variable i
            if ra and isinstance(ra[0], int) and pm[ra[0]] != rb[0]:
                continue
            if any(va[i][0] != vb[pm[i]][0] for i in range(n)):
                continue
            del self.out[n0:]
            self.loop(La, Lb, pm, F, w + "/loop")
            got = self.out[n0:]
            del self.out[n0:]
            if not got:
                best = []
                break
            sc = (sum(not d.definite for d in got), len(got))
            if best is None or sc < best[0]:
                best = (sc, got)
        if best is None:
            return self.emit(w, a, b, F, False)
        if best:
            self.out += best[1]
        elif len(ra) > 1 and ra[1:] != rb[1:]:
            for x, y in zip(ra[1:], rb[1:]):
                self.arg(x, y, F, w)

    def loop(self, La, Lb, pm, F, w):
        self.lvl += 1
        lvl = self.lvl
        k = typed(mk("k", lvl), ("i", 8, False))
        n = len(La.a[2])
        inv = {pm[i]: i for i in range(n)}
        aa = open_alts(La, k, lvl, None)
        bb = open_alts(Lb, k, lvl, inv)
        if La.a[1].op != "until" and Lb.a[1].op != "until":
            self.cmp(La.a[1], Lb.a[1], F, w + ".count")
            pa, pb = aa[0], bb[0]
        else:
            pa, pb = as_until(La, aa, k), as_until(Lb, bb, k)
        for i in range(n):
            self.cmp(La.a[2][i][1], Lb.a[2][pm[i]][1], F, w + ".init")
        start, leaves = len(self.out), False
        for fa, ua in pa:
            for fb, ub in pb:
                for G in self.add_facts(F, fa):
                    for H in self.add_facts(G, fb):
                        if not self.feasible(H):
                            continue
                        n0 = len(self.out)
                        if ua is None or ub is None:
                            if ua is not ub:
                                leaves = True
                                self.emit(w, mk("str", "leave the loop" if ua is None else "continue"),
                                          mk("str", "leave the loop" if ub is None else "continue"), H, False)
                        else:
                            for i in range(n):
                                x, y = ua[i], ub[pm[i]]
                                if isinstance(x, tuple):
                                    self.items(flat(x), flat(y), H, w + ".item")
                                else:
                                    self.cmp(x, y, H, w + ".step")
                        if len(self.out) > n0 and not all(self.known(z) for z, _ in fb):
                            for d in self.out[n0:]:
                                d.definite = False
        if leaves:
            # rounds of the two loops do not correspond
            for d in self.out[start:]:
                d.definite = False


_hl = {}


def has_loop(t):
    r = _hl.get(t)
    if r is None:
        r = t.op == "loop" or any(has_loop(x) for x in kids(t))
        _hl[t] = r
    return r


def kids(t):
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, Nd):
            yield x
        elif isinstance(x, tuple):
            st.extend(x)


def quick_disjoint(fa, fb):
    m = dict(fa)
    for a, S in fb:
        T = m.get(a)
        if T is not None and not inter(S, T):
            return True
    return False


def flat(x):
    return x


def rep1(lst, it, v):
    out = []
    for x in lst:
        if x is it:
            out += items_of(v)
        else:
            out.append(x)
    return out


def open_alts(L, k, lvl, inv):
    def leaf(n, d):
        if n.op == "bk":
            if n.a[0] == d:
                return k
            if n.a[0] > d:
                return bk(n.a[0] - 1)
        if n.op in ("bpv", "bpseq"):
            if n.a[0] == d:
                i = n.a[1] if inv is None else inv[n.a[1]]
                return typed(mk("pv" if n.op == "bpv" else "pseq", lvl, i), n.ty)
            if n.a[0] > d:
                return typed(mk(n.op, n.a[0] - 1, *n.a[1:]), n.ty)
        if n.op == "bpmap":
            if n.a[1] == d:
                i = n.a[2] if inv is None else inv[n.a[2]]
                return mk("pmap", n.a[0], lvl, i)
            if n.a[1] > d:
                return mk("bpmap", n.a[0], n.a[1] - 1, *n.a[2:])
        return None

    memo = {}
    nos = lambda n, d: dang(n) <= d
    alts = _under(L.a[3], 0, leaf, memo, nos)
    unt = _under(L.a[1].a[0], 0, leaf, memo, nos) if L.a[1].op == "until" else None
    return alts, unt


def as_until(L, opened, k):
    alts, unt = opened
    if unt is None:
        f, c, s = split_const(sub(k, L.a[1]))
        S = ((0 - c, INF),)
        T = ((-INF, -1 - c),)
        if s < 0:
            S, T = negiv(S), negiv(T)
        return [(((f, T),) + tuple(fs), u) for fs, u in alts] + [(((f, S),), None)]
    return list(alts) + [(fs, None) for fs in unt]


def is_sq(x):
    return x.op in ("seq", "str")


def seq_items(x):
    if x.op in ("seq", "str"):
        return items_of(x)
    if x.op in ("agg", "int", "lin"):
        return None
    return (mk("span", x),)


def isnum(x):
    return x.op in ("int", "lin") or (isinstance(x.ty, tuple) and x.ty[0] in ("i", "set"))


def isnum_atom(x):
    return x.op not in ("int", "lin")


def isbool(x):
    return x.op in ("in", "not", "band") or x.ty == "bool"


def all_nodes(summary):
    seen = set()

    def w(x):
        if isinstance(x, tuple) or isinstance(x, list):
            for y in x:
                w(y)
        elif isinstance(x, Nd):
            if x not in seen:
                seen.add(x)
                w(x.a)

    w(summary)
    return seen


def compare(spec, code, budget=60000, seconds=25, fields=None):
    """-> (list of Diff, undecided reason or None, statistics)"""
    c = Cmp(all_nodes(spec), budget, seconds, fields)
    why = None
    try:
        c.summaries(spec, code)
    except Budget:
        why = "comparison budget"
    except RecursionError:
        why = "recursion"
    return c.out, why, {"paths_identical": c.matched, "path_pairs_compared": c.pairs}
