"""Term algebra of the analysis: hash-consed terms, linear integer normal forms, interval facts."""
import hashlib

INF = 1 << 200


class Nd:
    __slots__ = ("op", "a", "_dig", "ty", "_sz", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    key = (op,) + a
    n = _tab.get(key)
    if n is None:
        n = Nd()
        n.op = op
        n.a = a
        n._dig = None
        n.ty = None
        n._sz = None
        _tab[key] = n
    return n


def _dig_of(x, h):
    if isinstance(x, Nd):
        h.update(dig(x))
    elif isinstance(x, tuple):
        h.update(b"(")
        for y in x:
            _dig_of(y, h)
        h.update(b")")
    else:
        h.update(repr(x).encode())
        h.update(b",")


def dig(n):
    if n._dig is None:
        h = hashlib.blake2b(digest_size=12)
        h.update(n.op.encode())
        for x in n.a:
            _dig_of(x, h)
        n._dig = h.digest()
    return n._dig


def tdig(x):
    h = hashlib.blake2b(digest_size=12)
    _dig_of(x, h)
    return h.digest()


def I(v):
    return mk("int", v)


TRUE = I(1)
FALSE = I(0)
UNIT = mk("agg", "tuple", "", (), ())
UNINIT = mk("uninit")


def typed(n, ty):
    if n.ty is None and ty is not None:
        n.ty = ty
    return n


# ---- intervals: tuple of (lo,hi) sorted disjoint -----------------------------------------
FULL = ((-INF, INF),)


def iv(lo, hi):
    return ((lo, hi),) if lo <= hi else ()


def inter(a, b):
    r = []
    for (x, y) in a:
        for (u, v) in b:
            lo, hi = max(x, u), min(y, v)
            if lo <= hi:
                r.append((lo, hi))
    return tuple(sorted(r))


def union(a, b):
    r = []
    for (x, y) in sorted(a + b):
        if r and x <= r[-1][1] + 1:
            r[-1] = (r[-1][0], max(y, r[-1][1]))
        else:
            r.append((x, y))
    return tuple(r)


def compl(a):
    r = []
    lo = -INF
    for (x, y) in a:
        if lo <= x - 1:
            r.append((lo, x - 1))
        lo = y + 1
    if lo <= INF:
        r.append((lo, INF))
    return tuple(r)


def minus(a, b):
    return inter(a, compl(b))


def shift(a, c):
    return tuple((x if x <= -INF else x + c, y if y >= INF else y + c) for x, y in a)


def negiv(a):
    return tuple(sorted((-y, -x) for x, y in a))


# ---- integer types -----------------------------------------------------------------------
def tyrange(t):
    """t: ('i',bytes,signed) | 'bool' | ('set', intervals) | None"""
    if t is None:
        return FULL
    if t == "bool":
        return ((0, 1),)
    if t[0] == "i":
        b = t[1] * 8
        return ((-(1 << (b - 1)), (1 << (b - 1)) - 1),) if t[2] else ((0, (1 << b) - 1),)
    if t[0] == "set":
        return t[1]
    if t[0] == "char":
        return ((0, 0x10FFFF),)
    return FULL


# ---- linear forms ------------------------------------------------------------------------
def lin_parts(n):
    """-> (const, {atom: coef})"""
    if n.op == "int":
        return n.a[0], {}
    if n.op == "lin":
        return n.a[0], dict(n.a[1])
    return 0, {n: 1}


def mklin(c, d):
    items = [(t, k) for t, k in d.items() if k]
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: dig(p[0]))
    return mk("lin", c, tuple(items))


def add(a, b, kb=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + k * kb
    return mklin(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = lin_parts(a)
    return mklin(c * k, {t: v * k for t, v in d.items()})


def modred(n, w):
    """a simpler number congruent to n modulo 2**w: reductions to at least w bits inside it do not matter"""
    c, d = lin_parts(n)
    out = I(c)
    changed = False
    for t, k in d.items():
        if t.op == "trunc" and int(t.a[0][1:]) >= w:
            t = modred(t.a[1], w)
            changed = True
        km = (k + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
        changed |= km != k
        out = add(out, t, km)
    c, d = lin_parts(out)
    cm = (c + (1 << (w - 1))) % (1 << w) - (1 << (w - 1)) if abs(c) >= 1 << w else c
    if cm != c:
        out, changed = add(out, I(cm - c)), True
    return out if changed else n


def split_const(n):
    """-> (form without constant, sign-normalised ; const ; sign)   n = sign*form + const"""
    c, d = lin_parts(n)
    if not d:
        return None, c, 1
    items = sorted(d.items(), key=lambda p: dig(p[0]))
    s = 1 if items[0][1] > 0 else -1
    return mklin(0, {t: v * s for t, v in d.items()}), c, s


def orient(a, S):
    """the fact about a linear form in its normal form (terms in it may have been renamed since it was made)"""
    if a.op != "lin":
        return a, S
    f, c, s = split_const(a)
    if f is a:
        return a, S
    if f is None:
        return a, S
    S = shift(S, -c)
    return f, negiv(S) if s < 0 else S


def universe(f, facts=None):
    """interval set of the values an (integer) form may take"""
    if f.op == "int":
        return ((f.a[0], f.a[0]),)
    if facts is not None:
        r = facts.get(f)
        if r is not None:
            return r
    if f.op == "lin":
        lo = hi = f.a[0]
        for t, k in f.a[1]:
            u = universe(t, facts)
            if not u:
                return ()
            a, b = u[0][0], u[-1][1]
            if k < 0:
                a, b = b, a
            lo = -INF if abs(a) >= INF or lo <= -INF else lo + a * k
            hi = INF if abs(b) >= INF or hi >= INF else hi + b * k
        return ((max(lo, -INF), min(hi, INF)),)
    if f.op in ("in", "not", "band", "bor"):
        return ((0, 1),)
    if f.op == "len" and f.a[0].op in ("split", "rsplit"):
        # splitting a text yields at least one piece
        return ((1, tyrange(f.ty)[-1][1]),)
    return tyrange(f.ty)


def rng(n, facts=None):
    """(lo,hi) bounds of an integer term, using facts on its canonical form too"""
    if n.op == "int":
        return n.a[0], n.a[0]
    f, c, s = split_const(n)
    u = universe(n, None)
    lo, hi = (u[0][0], u[-1][1]) if u else (0, -1)
    if facts is not None:
        u2 = universe(f, facts)
        if f not in facts and f.op == "lin":
            pass
        if u2:
            a, b = u2[0][0], u2[-1][1]
            if s < 0:
                a, b = -b, -a
            a = a if a <= -INF else a + c
            b = b if b >= INF else b + c
            lo, hi = max(lo, a), min(hi, b)
        # interval arithmetic with facts on atoms
        if f.op == "lin":
            l2 = h2 = 0
            for t, k in f.a[1]:
                uu = universe(t, facts)
                if not uu:
                    continue
                x, y = uu[0][0], uu[-1][1]
                if k < 0:
                    x, y = y, x
                l2 = -INF if abs(x) >= INF or l2 <= -INF else l2 + x * k
                h2 = INF if abs(y) >= INF or h2 >= INF else h2 + y * k
            if s < 0:
                l2, h2 = -h2, -l2
            l2 = l2 if l2 <= -INF else l2 + c
            h2 = h2 if h2 >= INF else h2 + c
            lo, hi = max(lo, l2), min(hi, h2)
    return lo, hi


def mkin(x, S):
    """boolean term  x in S"""
    if x.op == "case":
        r = [(T, mkin(v, S)) for T, v in x.a[1]]
        if all(b.op == "int" for _, b in r):
            return mkcase(x.a[0], r)
    if x.op == "in" and True:
        # x is boolean
        if not inter(S, ((1, 1),)):
            return neg(x) if inter(S, ((0, 0),)) else FALSE
        return TRUE if inter(S, ((0, 0),)) else x
    f, c, s = split_const(x)
    if f is None:
        return TRUE if inter(S, ((c, c),)) else FALSE
    T = shift(S, -c)
    if s < 0:
        T = negiv(T)
    u = universe(f)
    T = inter(T, u)
    if not T:
        return FALSE
    if T == u:
        return TRUE
    if f.op in ("in", "not", "band", "bor"):
        return f if T == ((1, 1),) else neg(f)
    if f.ty == "bool" and T == ((1, 1),):
        return f
    return mk("in", f, T)


def neg(b):
    if b.op == "int":
        return I(1 - b.a[0])
    if b.op == "in":
        return mkin(b.a[0], minus(universe(b.a[0]), b.a[1]))
    if b.op == "not":
        return b.a[0]
    if b.ty == "bool":
        return mkin(b, ((0, 0),))
    return typed(mk("not", b), "bool")


def band(a, b):
    if a.op == "int":
        return b if a.a[0] else FALSE
    if b.op == "int":
        return a if b.a[0] else FALSE
    if a is b:
        return a
    if dig(a) > dig(b):
        a, b = b, a
    return typed(mk("band", a, b), "bool")


def bor(a, b):
    return neg(band(neg(a), neg(b)))


def le0(x):
    return mkin(x, iv(-INF, 0))


def cmp_lt(a, b):
    return mkin(sub(a, b), iv(-INF, -1))


def cmp_eq(a, b):
    return mkin(sub(a, b), ((0, 0),))


# ---- sequences ---------------------------------------------------------------------------
# items: ("el" v) one element ; ("le" w x) w bytes of integer x ; ("lit" s) utf8 text ;
#        ("span" s) all elements of sequence s ; ("rep" L i) output i of loop L ; ("pseq" depth id) loop placeholder
EMPTY = mk("seq", ())


def items_of(s):
    if s.op == "seq":
        return s.a[0]
    if s.op == "str":
        return (mk("lit", s.a[0]),) if s.a[0] else ()
    if s.op == "case":
        return (mk("alt", s.a[0], s.a[1]),)
    return (mk("span", s),)


def mkseq(items):
    r = []
    for it in items:
        if it.op == "span" and it.a[0].op in ("seq", "str", "case"):
            sub_items = items_of(it.a[0])
        else:
            sub_items = (it,)
        for x in sub_items:
            if x.op == "lit":
                if not x.a[0]:
                    continue
                if r and r[-1].op == "lit":
                    r[-1] = mk("lit", r[-1].a[0] + x.a[0])
                    continue
            if x.op == "el" and r and r[-1].op == "lit" and False:
                pass
            r.append(x)
    if len(r) == 1:
        if r[0].op == "span":
            return r[0].a[0]
        if r[0].op == "lit":
            return mk("str", r[0].a[0])
        if r[0].op == "alt":
            return mkcase(r[0].a[0], r[0].a[1])
    return mk("seq", tuple(r))


def concat(a, b):
    return mkseq(items_of(a) + items_of(b))


def item_len(it):
    if it.op == "el":
        return I(1)
    if it.op == "le":
        return I(it.a[0])
    if it.op == "lit":
        return I(len(it.a[0].encode()))
    if it.op == "span":
        return seqlen(it.a[0])
    if it.op == "alt":
        return mkcase(it.a[0], [(S, seqlen(v)) for S, v in it.a[1]])
    if it.op == "rep":
        L, i = it.a
        per = set()
        for alt in L.a[3]:
            tot = I(0)
            for x in alt[1][i]:
                tot = add(tot, item_len(x))
            per.add(tot)
        if len(per) == 1 and L.a[1].op != "until":
            p = per.pop()
            if p.op == "int":
                return scale(L.a[1], p.a[0])
        return typed(mk("replen", it), ("i", 8, False))
    return typed(mk("itemlen", it), ("i", 8, False))


def seqlen(s):
    if s.op == "seq":
        t = I(0)
        for it in s.a[0]:
            t = add(t, item_len(it))
        return t
    if s.op == "str":
        return I(len(s.a[0].encode()))
    if s.op == "case":
        return map_case(s, seqlen)
    if s.op == "bytes":
        return s.a[2]
    if s.op == "fill":
        return s.a[1]
    if s.op == "slice":
        return sub(s.a[2], s.a[1])
    if s.op in ("upd", "pmap", "bpmap", "mapx0"):
        return seqlen(s.a[0])
    if s.op == "mapx":
        return seqlen(s.a[2])
    if s.op == "seqof":
        return seqlen(s.a[0])
    return typed(mk("len", s), ("i", 8, False))


_subst_stack = []


def subst(n, m, memo=None):
    """replace nodes per mapping m (dict node->node or callable), rebuilding normal forms"""
    if memo is None:
        memo = {}
    return _subst(n, m, memo)


def _subst_any(x, m, memo):
    if isinstance(x, Nd):
        return _subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_subst_any(y, m, memo) for y in x)
    return x


def _subst(n, m, memo):
    r = memo.get(n)
    if r is not None:
        return r
    r = m.get(n)
    if r is None:
        if not n.a or n.op in ("int", "str", "lit"):
            r = n
        else:
            a = _subst_any(n.a, m, memo)
            r = n if a == n.a else rebuild(n.op, a, n)
    memo[n] = r
    return r


REBUILD = {}


def rebuild(op, a, orig=None):
    f = REBUILD.get(op)
    if f:
        r = f(*a)
    else:
        r = mk(op, *a)
    if orig is not None and r.ty is None and orig.ty is not None and r.op not in ("int", "lin"):
        r.ty = orig.ty
    return r


def _rb_lin(c, items):
    r = I(c)
    for t, k in items:
        r = add(r, scale(t, k))
    return r


REBUILD["lin"] = _rb_lin
REBUILD["in"] = mkin
REBUILD["not"] = neg
REBUILD["band"] = band
REBUILD["seq"] = lambda items: mkseq(items)
REBUILD["span"] = lambda s: mk("span", s)
REBUILD["alt"] = lambda f, alts: mk("span", REBUILD["case"](f, alts))
REBUILD["len"] = seqlen


def _no_rounds(L):
    return L.op == "loop" and L.a[1].op == "int" and L.a[1].a[0] == 0


REBUILD["rep"] = lambda L, i: mk("span", EMPTY) if _no_rounds(L) else mk("rep", L, i)
REBUILD["phix"] = lambda L, i: L.a[2][i][1] if _no_rounds(L) and L.a[2][i][0] == "phi" else mk("phix", L, i)


def mkagg(ty, variant, names, vals, orig=None):
    if vals and names:
        v0 = vals[0]
        if v0.op == "fld" and v0.a[1] == variant and v0.a[2] == names[0]:
            x = v0.a[0]
            if x.ty is not None and x.ty == ("adt", ty) and all(
                v.op == "fld" and v.a[0] is x and v.a[1] == variant and v.a[2] == nm
                for v, nm in zip(vals, names)
            ):
                return x
    return mk("agg", ty, variant, names, vals)


REBUILD["agg"] = mkagg


def fld(x, variant, name, ty=None):
    if x.op == "agg":
        try:
            return x.a[3][x.a[2].index(name)]
        except ValueError:
            return mk("bad", x, name)
    if x.op == "case":
        r = [(S, fld(v, variant, name, ty)) for S, v in x.a[1] if v.op != "agg" or v.a[1] == variant]
        if r:
            return mkcase(x.a[0], r)
    return typed(mk("fld", x, variant, name), ty)


REBUILD["fld"] = lambda x, v, n: fld(x, v, n)


def idx(s, i, ty=None):
    if s.op == "seq":
        its = s.a[0]
        if i.op == "int":
            k = i.a[0]
            for it in its:
                if it.op == "el":
                    if k == 0:
                        return it.a[0]
                    k -= 1
                elif it.op == "le":
                    if k < it.a[0]:
                        if it.a[0] == 1:
                            return it.a[1]
                        return typed(mk("byte", it.a[1], k), ("i", 1, False))
                    k -= it.a[0]
                else:
                    break
        if len(its) == 1 and its[0].op == "rep":
            L, j = its[0].a
            if L.a[1].op != "until" and len(L.a[3]) == 1 and not L.a[3][0][0]:
                out = L.a[3][0][1][j]
                if len(out) == 1 and out[0].op == "el":
                    e = out[0].a[0]
                    if not has_bpv(e, 0):
                        return open_term(e, i)
    if s.op == "case":
        return mkcase(s.a[0], [(S, idx(v, i, ty)) for S, v in s.a[1]])
    if s.op == "upd":
        if s.a[1] is i:
            return s.a[2]
        d = sub(s.a[1], i)
        if d.op == "int":
            return idx(s.a[0], i, ty)
    if s.op == "pmap":
        # elements at or after the running index are still the original ones
        if i is mk("k", s.a[1]):
            return idx(s.a[0], i, ty)
    if s.op == "bpmap":
        if i is mk("bk", s.a[1]):
            return idx(s.a[0], i, ty)
    if s.op == "slice":
        return idx(s.a[0], add(s.a[1], i), ty)
    if s.op == "fill":
        return s.a[0]
    return typed(mk("idx", s, i), ty)


REBUILD["idx"] = lambda s, i: idx(s, i)


def has_pv(n, depth, memo=None):
    """does a free loop variable of this depth occur"""
    found = [False]

    def f(x):
        if x.op in ("pv", "pseq") and x.a[0] == depth or x.op == "pmap" and x.a[1] == depth:
            found[0] = True

    walk(n, f)
    return found[0]


# ---- loop binders (locally nameless): free  k/pv/pseq/pmap ; bound  bk/bpv/bpseq/bpmap with a
# de Bruijn index counting enclosing `loop` nodes.  In loop(0, N, vars, alts) the until-facts in N
# and the alternatives are under the binder, a counted N and the initial values are not.
_dset = {}


def dset(x):
    """the dangling binder indices, as a bit mask (0 = closed)"""
    if isinstance(x, tuple):
        r = 0
        for y in x:
            if isinstance(y, (Nd, tuple)):
                r |= dset(y)
        return r
    if not isinstance(x, Nd):
        return 0
    r = _dset.get(x)
    if r is not None:
        return r
    if x.op == "bk":
        r = 1 << x.a[0]
    elif x.op in ("bpv", "bpseq"):
        r = 1 << x.a[0]
    elif x.op == "bpmap":
        r = 1 << x.a[1] | dset(x.a[0])
    elif x.op == "loop":
        _, N, vars_, alts = x.a
        r = dset(vars_) | dset(alts) >> 1 | (dset(N) >> 1 if N.op == "until" else dset(N))
    else:
        r = 0
        for y in x.a:
            if isinstance(y, (Nd, tuple)):
                r |= dset(y)
    _dset[x] = r
    return r


_dang = {}


def dang(x):
    """1 + largest dangling binder index (0 = closed)"""
    if not isinstance(x, Nd):
        return dset(x).bit_length()
    r = _dang.get(x)
    if r is None:
        r = _dang[x] = dset(x).bit_length()
    return r


_near = {}


def near(x):
    """how many binders up the nearest one that x depends on is (-1 = closed)"""
    r = _near.get(x)
    if r is None:
        b = dset(x)
        r = _near[x] = (b & -b).bit_length() - 1
    return r


def has_bpv(n, d):
    memo = set()

    def rec(x, d):
        if isinstance(x, tuple):
            return any(rec(y, d) for y in x if isinstance(y, (Nd, tuple)))
        if not isinstance(x, Nd) or dang(x) <= d or (x, d) in memo:
            return False
        memo.add((x, d))
        if x.op in ("bpv", "bpseq"):
            return x.a[0] == d
        if x.op == "bpmap":
            return x.a[1] == d or rec(x.a[0], d)
        if x.op == "loop":
            _, N, vars_, alts = x.a
            return rec(vars_, d) or rec(alts, d + 1) or rec(N, d + 1 if N.op == "until" else d)
        return any(rec(y, d) for y in x.a if isinstance(y, (Nd, tuple)))

    return rec(n, d)


def _under(x, d, leaf, memo, skip):
    """rebuild x; leaf(node, depth) -> replacement or None; skip(node, depth) -> True to keep as is"""
    if isinstance(x, tuple):
        return tuple(_under(y, d, leaf, memo, skip) if isinstance(y, (Nd, tuple)) else y for y in x)
    key = (x, d)
    r = memo.get(key)
    if r is not None:
        return r
    if skip(x, d):
        r = x
    else:
        r = leaf(x, d)
        if r is None:
            if x.op == "loop":
                z, N, vars_, alts = x.a
                a = (z, _under(N, d + 1 if N.op == "until" else d, leaf, memo, skip),
                     _under(vars_, d, leaf, memo, skip), _under(alts, d + 1, leaf, memo, skip))
                r = x if a == x.a else rebuild("loop", a, x)
            elif not x.a or x.op in ("int", "str", "lit"):
                r = x
            else:
                a = _under(x.a, d, leaf, memo, skip)
                r = x if a == x.a else rebuild(x.op, a, x)
    memo[key] = r
    return r


def shift_bv(x, by, cut=0):
    if by == 0 or dang(x) <= cut:
        return x

    def leaf(n, d):
        if n.op == "bk" and n.a[0] >= d:
            return bk(n.a[0] + by)
        if n.op in ("bpv", "bpseq") and n.a[0] >= d:
            return typed(mk(n.op, n.a[0] + by, *n.a[1:]), n.ty)
        if n.op == "bpmap" and n.a[1] >= d:
            return mk("bpmap", shift_bv(n.a[0], by, d), n.a[1] + by, *n.a[2:])
        return None

    return _under(x, cut, leaf, {}, lambda n, d: dang(n) <= d)


def bk(i):
    return typed(mk("bk", i), ("i", 8, False))


def open_term(e, val):
    """instantiate the iteration number of the innermost binder (index 0 of e) with val"""
    def leaf(n, d):
        if n.op == "bk":
            if n.a[0] == d:
                return shift_bv(val, d)
            if n.a[0] > d:
                return bk(n.a[0] - 1)
        if n.op in ("bpv", "bpseq") and n.a[0] > d:
            return typed(mk(n.op, n.a[0] - 1, *n.a[1:]), n.ty)
        if n.op == "bpmap" and n.a[1] > d:
            return mk("bpmap", open_at(n.a[0], d), n.a[1] - 1, *n.a[2:])
        return None

    memo = {}

    def open_at(x, d):
        return _under(x, d, leaf, memo, lambda n, dd: dang(n) <= dd)

    return open_at(e, 0)


def close_term(x, k, ren):
    """bind the free loop variables: k -> bk, ren: {free placeholder: (op, index, ty)}"""
    def leaf(n, d):
        if n is k:
            return bk(d)
        r = ren.get(n)
        if r is not None:
            if n.op == "pmap":
                return mk("bpmap", _under(n.a[0], d, leaf, memo, nos), d, r[1])
            return typed(mk(r[0], d, r[1], *(() if r[0] == "bpseq" else (str(r[2]),))), r[2])
        return None

    memo = {}
    nos = lambda n, d: False
    return _under(x, 0, leaf, memo, nos)


def mkslice(s, lo, hi):
    if lo.op == "int" and lo.a[0] == 0 and hi is seqlen(s):
        return s
    if s.op == "slice":
        return mkslice(s.a[0], add(s.a[1], lo), add(s.a[1], hi))
    if s.op == "str" and lo.op == "int" and hi.op == "int":
        b = s.a[0].encode()[lo.a[0]:hi.a[0]]
        return mk("str", b.decode())
    if s.op == "seq" and lo.op == "int" and hi.op == "int" and all(i.op == "el" for i in s.a[0]):
        return mkseq(s.a[0][lo.a[0]:hi.a[0]])
    return mk("slice", s, lo, hi)


REBUILD["slice"] = mkslice


# ---- case terms: value selected by which set an atom lies in ---------------------------------
# case(f, ((S, v), ...))  as a value ; alt(f, ((S, seq), ...)) as a sequence item
def alts_key(p):
    return p[0]


def mkcase(f, alts):
    """alts: iterable of (S, v), S disjoint"""
    by = {}
    for S, v in alts:
        if v.op == "case" and v.a[0] is f:
            for T, w in v.a[1]:
                U = inter(S, T)
                if U:
                    by[w] = union(by.get(w, ()), U)
        else:
            v = restrict_top(v, f, S)
            by[v] = union(by.get(v, ()), S)
    if len(by) == 1:
        return next(iter(by))
    vals = list(by)
    # booleans / integers
    if all(v.op == "int" for v in vals) and set(v.a[0] for v in vals) == {0, 1}:
        return mkin(f, by[TRUE])
    v0 = vals[0]
    if v0.op == "agg" and all(v.op == "agg" and v.a[:3] == v0.a[:3] for v in vals) and v0.a[3]:
        out = []
        for i in range(len(v0.a[3])):
            out.append(mkcase(f, [(S, v.a[3][i]) for v, S in by.items()]))
        return mkagg(v0.a[0], v0.a[1], v0.a[2], tuple(out))
    if v0.op == "fa" and all(v.op == "fa" and v.a[:2] == v0.a[:2] for v in vals):
        return mk("fa", v0.a[0], v0.a[1], mkcase(f, [(S, v.a[2]) for v, S in by.items()]))
    if v0.op == "setbits" and all(v.op == "setbits" and v.a[0] is v0.a[0] and [x[:2] for x in v.a[1]] == [x[:2] for x in v0.a[1]] for v in vals):
        ov = tuple((x[0], x[1], mkcase(f, [(S, v.a[1][i][2]) for v, S in by.items()])) for i, x in enumerate(v0.a[1]))
        return mk("setbits", v0.a[0], ov)
    if all(v.op in ("int", "lin") or (v.ty is not None and isinstance(v.ty, tuple) and v.ty[0] == "i") for v in vals):
        parts = [lin_parts(v) for v in vals]
        common = dict(parts[0][1])
        for _, d in parts[1:]:
            common = {t: k for t, k in common.items() if d.get(t) == k}
        if common:
            cm = mklin(0, common)
            return add(cm, mkcase(f, [(S, sub(v, cm)) for v, S in by.items()]))
        tys = {v.ty for v in vals if v.op not in ("int", "lin")}
        r = mk("case", f, tuple(sorted(((S, v) for v, S in by.items()), key=alts_key)))
        lo = min(rng(v)[0] for v in vals)
        hi = max(rng(v)[1] for v in vals)
        if abs(lo) < INF and abs(hi) < INF:
            typed(r, ("set", ((lo, hi),)))
        return r
    if all(v.op in ("seq", "str") for v in vals):
        its = [items_of(v) for v in vals]
        n = 0
        m = min(len(x) for x in its)
        while n < m and all(x[n] is its[0][n] for x in its):
            n += 1
        k = 0
        while k < m - n and all(x[-1 - k] is its[0][-1 - k] for x in its):
            k += 1
        if n or k:
            mid = mkcase(f, [(S, mkseq(items_of(v)[n:len(items_of(v)) - k])) for v, S in by.items()])
            return mkseq(its[0][:n] + items_of(mid) + (its[0][len(its[0]) - k:] if k else ()))
    r = mk("case", f, tuple(sorted(((S, v) for v, S in by.items()), key=alts_key)))
    if r.ty is None:
        tys = {v.ty if v.op != "agg" else ("adt", v.a[0]) for v in vals}
        if len(tys) == 1:
            r.ty = tys.pop()
        elif all(v.op == "int" or v.ty == "bool" or v.op in ("in", "not", "band") for v in vals):
            r.ty = "bool"
    return r


def restrict_top(v, f, S):
    """cheap simplification of v knowing f in S (top level only)"""
    if v.op == "case" and v.a[0] is f:
        return mkcase(f, [(inter(T, S), w) for T, w in v.a[1] if inter(T, S)])
    if v.op == "in" and v.a[0] is f:
        i = inter(v.a[1], S)
        if not i:
            return FALSE
        if i == S:
            return TRUE
    return v


def _rb_case(f, alts):
    c, k = None, None
    if f.op == "int":
        for S, v in alts:
            if inter(S, ((f.a[0], f.a[0]),)):
                return v
        return alts[0][1]
    g, cst, s = split_const(f)
    if g is not f:
        alts = tuple((negiv(shift(S, -cst)) if s < 0 else shift(S, -cst), v) for S, v in alts)
        return _rb_case(g, alts) if g is not None else mk("bad", f, "case")
    if f.op == "case":
        return mkcase(f.a[0], [(S, _rb_case(v, alts)) for S, v in f.a[1]])
    return mkcase(f, alts)


REBUILD["case"] = lambda f, alts: _rb_case(f, alts)


def mkalt(f, alts):
    """items for a choice between sequences"""
    return items_of(_rb_case(f, alts))


def map_case(v, fn):
    return mkcase(v.a[0], [(S, fn(w)) for S, w in v.a[1]])


def subst_facts(facts):
    """simplifier under a fact environment {atom: S}: resolves case/alt/in on known atoms"""
    memo = {}

    def rec_any(x):
        if isinstance(x, Nd):
            return rec(x)
        if isinstance(x, tuple):
            return tuple(rec_any(y) for y in x)
        return x

    def rec(n):
        r = memo.get(n)
        if r is not None:
            return r
        r = rec1(n)
        memo[n] = r
        return r

    def rec1(n):
        if n.op in ("int", "str", "lit") or not n.a:
            return n
        S = facts.get(n)
        if S is not None and len(S) == 1 and S[0][0] == S[0][1] and n.op not in ("strid", "discr", "lin"):
            return I(S[0][0])
        if n.op in ("case", "alt"):
            f = n.a[0]
            S = facts.get(f)
            if S is not None:
                al = [(inter(T, S), v) for T, v in n.a[1] if inter(T, S)]
                if len(al) == 1:
                    return rec(al[0][1]) if n.op == "case" else mk("span", rec(al[0][1]))
                if al:
                    al = tuple((T, rec(v)) for T, v in al)
                    f2 = rec(f)
                    r = _rb_case(f2, al)
                    return r if n.op == "case" else mk("span", r)
        if n.op == "in":
            S = facts.get(n.a[0])
            if S is not None:
                i = inter(n.a[1], S)
                if not i:
                    return FALSE
                if i == S:
                    return TRUE
        a = rec_any(n.a)
        return n if a == n.a else rebuild(n.op, a, n)

    return rec


def walk(n, f, seen=None):
    """pre-order walk over all sub-terms"""
    if seen is None:
        seen = set()
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, Nd):
            if x in seen:
                continue
            seen.add(x)
            f(x)
            st.extend(reversed(x.a))
        elif isinstance(x, tuple):
            st.extend(reversed(x))


def show(x, depth=0):
    if isinstance(x, tuple):
        return "(" + " ".join(show(y) for y in x) + ")"
    if not isinstance(x, Nd):
        return str(x)
    o, a = x.op, x.a
    if o == "int":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "lit":
        return repr(a[0])
    if o == "lin":
        s = " + ".join((show(t) if k == 1 else f"{k}*{show(t)}") for t, k in a[1])
        return f"({s}{'' if not a[0] else f' + {a[0]}'})"
    if o == "fld":
        v = f"{a[1]}." if a[1] else ""
        return f"{show(a[0])}.{v}{a[2]}"
    if o == "agg":
        t = a[0].split("::")[-1]
        if t == "tuple":
            return "(" + ", ".join(map(show, a[3])) + ")"
        if a[1]:
            t = a[1]
        return t + ("{" + ", ".join(f"{n}:{show(v)}" for n, v in zip(a[2], a[3])) + "}" if a[3] else "")
    if o == "in":
        return f"[{show(a[0])} in {show_iv(a[1])}]"
    if o == "arg":
        return str(a[0])
    if o == "el":
        return show(a[0])
    if o == "seq":
        return "<" + "; ".join(map(show, a[0])) + ">"
    if o == "span":
        return "*" + show(a[0])
    if o == "idx":
        return f"{show(a[0])}[{show(a[1])}]"
    if o == "k":
        return f"k{a[0]}"
    if o == "le":
        return f"u{a[0]*8}({show(a[1])})"
    if o in ("case", "alt"):
        return o + "{" + show(a[0]) + ": " + " | ".join(f"{show_iv(S)} => {show(v)}" for S, v in a[1]) + "}"
    return o + "(" + ", ".join(map(show, a)) + ")"


def show_iv(S):
    def b(x):
        return "-inf" if x <= -INF else "inf" if x >= INF else str(x)

    return "|".join(b(x) if x == y else f"{b(x)}..{b(y)}" for x, y in S)
