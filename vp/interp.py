"""Random interpretation of path summaries (after Gulwani and Necula).

A summary is a set of (path condition, outcome) terms over the inputs of one entry point.  Two summaries that are not
the same normal form are compared by giving the input atoms values, under which both sides are evaluated: a valuation
under which exactly one path of each side applies and the outcomes are unequal is a proof that the summaries differ,
whatever the shape of the terms.  Library functions without a theory are functions chosen at random.  Only the terms
are evaluated; nothing of /repo is run.
"""
import os
import pickle
import random
import re
import signal
import sys
import time
import zlib
from .terms import *
from .engine import DISCR

CAP = 66000
STAY = int(os.environ.get('VP_STAY', 2))
AIMED = float(os.environ.get('VP_AIMED', 0.3))
# functions of the library without a theory here that may still tell two summaries apart: the reference summaries use
# them, or they change a string
KNOWN_EXT = set()
CHANGES = ("::trim", "::trim_end", "::trim_start", "::to_lowercase", "::to_uppercase", "::to_ascii_lowercase", "::to_ascii_uppercase", "::trim_end_matches", "::trim_start_matches", "::trim_matches", "::repeat", "::eq_ignore_ascii_case")


class Invalid(Exception):
    """the valuation is outside what the terms describe (an index out of range, a loop with no applicable case)"""


class Stuck(Invalid):
    """an absent key or an index out of range"""


class GiveUp(Exception):
    """a term without an interpretation"""


class O:
    __slots__ = ("key", "ty")

    def __init__(self, key, ty=None):
        self.key = key
        self.ty = ty


class A:
    __slots__ = ("ty", "va", "names", "vals")

    def __init__(self, ty, va, names, vals):
        self.ty, self.va, self.names, self.vals = ty, va, names, vals


class B:
    __slots__ = ("base", "ov")

    def __init__(self, base, ov):
        self.base, self.ov = base, ov


class V:
    __slots__ = ("off", "n")

    def __init__(self, off, n):
        self.off, self.n = off, n


class M:
    __slots__ = ("base", "ops")

    def __init__(self, base, ops):
        self.base, self.ops = base, ops


class T:
    __slots__ = ("tag", "args")

    def __init__(self, tag, args):
        self.tag, self.args = tag, args


FAILED = object()
# parts that no operation changes: only valuations are looked at in which all objects of the type share them.
# A cursor has one offset, in increasing order, for each instruction, and stands somewhere in its code
KEPT = {"redscript::bytecode::CodeCursor": ("code", "offsets", "index"), "redscript_decompiler::Decompiler": ("pool", "definition")}


class Frame:
    __slots__ = ("k", "vals", "kinds", "up", "memo")

    def __init__(self, k, vals, kinds, up):
        self.k, self.vals, self.kinds, self.up, self.memo = k, vals, kinds, up, {}


MAP0V = T("map0", ())
ADT = {"std::option::Option": {0: "None", 1: "Some"}, "std::result::Result": {0: "Ok", 1: "Err"}}


def learn_adts(prog=None):
    for n, m in list(DISCR.items()):
        x = n.a[0]
        if isinstance(x.ty, tuple) and x.ty[0] == "adt":
            ADT.setdefault(x.ty[1], m)
    if prog is not None:
        for t in prog.tys:
            d = prog.d(t)
            if d[0] == "adt" and d[2] == "enum" and len(d) > 4:
                ADT.setdefault(d[1], {dv: vn for vn, dv, _ in d[4]})


def variant_no(ty, va):
    m = ADT.get(ty)
    if m is None:
        return None
    for k, v in m.items():
        if v == va:
            return k
    return None


def inS(v, S):
    for lo, hi in S:
        if lo <= v <= hi:
            return True
    return False


class Model:
    def __init__(self, rnd, hints, target, pins, bits=None):
        self.r = rnd
        self.hints = hints
        self.target = target
        self.pins = pins
        self.asg = {}
        self.ids = {}
        self.keys = []
        self.fn = {}
        self.nodekey = {}
        self.memo = {}
        self.trying = 0
        self.steps = 0
        self.bound = []
        self.marks = {}
        self.force = {}
        self.unknown = set()
        self.neq = set()
        self.rounds = CAP if any(1500 < S[0][0] < CAP for S in target.values() if S) else 1500
        self.cuts = None

    # ---- leaves
    def key(self, *k):
        i = self.ids.get(k)
        if i is None:
            i = len(self.keys)
            self.ids[k] = i
            self.keys.append(k)
        return i

    def pick(self, S):
        r = self.r
        S = [(max(a, -(1 << 64)), min(b, 1 << 64)) for a, b in S]
        if not S:
            raise Invalid()
        if len(S) > 1:
            # points and ranges alike
            a, b = r.choice(S)
        else:
            a, b = S[0]
        if a == b:
            return a
        if b - a < 12:
            return r.randint(a, b)
        x = r.random()
        if a <= 0 <= b and x < 0.55:
            return min(b, r.choice((0, 1, 1, 2, 2, 3, 4)))
        if x < 0.65:
            return a + r.choice((0, 0, 1, 2, 3))
        if x < 0.75:
            return b - r.choice((0, 0, 1, 2))
        if x < 0.9:
            return r.randint(a, min(b, a + 300))
        return r.randint(a, b)

    def choose(self, n, U):
        if n is not None:
            if self.force:
                S = self.force.get(n)
                if S is not None:
                    S = inter(S, U)
                    if S:
                        return self.pick(S)
            S = self.target.get(n)
            if S is not None and self.r.random() < 0.97:
                S = inter(S, U)
                if S:
                    return self.pick(S)
            h = self.hints.get(n)
            if h is None and n.op == "discr":
                h = self.tagvals(n)
            if h and self.r.random() < 0.6:
                h = [x for x in h if inS(x, U)]
                if h:
                    return self.r.choice(h)
        return self.pick(U)

    def leaf(self, key, n):
        ty = n.ty
        if ty is None or (isinstance(ty, tuple) and ty[0] == "adt"):
            return O(key, ty[1] if ty else None)
        v = self.asg.get(key)
        if v is None:
            v = self.pins.get(self.keys[key])
            if v is None:
                if n.op == "len":
                    v = self.choose_len(n)
                else:
                    v = self.choose(n, self.dom(n))
            self.asg[key] = v
        if dang(n) == 0:
            self.nodekey[n] = key
        return v

    def kept(self, x, va, nm, n):
        k = self.key("fld", x.key, va, nm)
        if nm == "index":
            if k not in self.asg and n not in self.target and self.r.random() < 0.9:
                v = self.pins.get(self.keys[k])
                if v is None:
                    v = self.r.randint(0, self.length(O(self.key("kept", "code"))))
                self.asg[k] = v
            return self.leaf(k, n)
        kc = self.key("kept", nm)
        if nm == "offsets":
            kl = self.key("len", kc)
            if kl not in self.asg and self.keys[kl] not in self.pins:
                c = self.length(O(self.key("kept", "code")))
                self.asg[kl] = c
                v = 0
                for i in range(min(c, 50)):
                    v += self.r.choice((1, 1, 2, 3, 3, 5, 9, 20))
                    ki = self.key("idx", kc, i)
                    if ki not in self.asg and self.keys[ki] not in self.pins:
                        self.asg[ki] = v
        return self.leaf(kc, n)

    def tagvals(self, n):
        """variants that the summaries tell apart for this type"""
        m = DISCR.get(n)
        if m is None or len(m) < 12:
            return None
        t = getattr(self.hints, "tags", None)
        if t is None:
            t = self.hints.tags = {}
            for x, vs in self.hints.items():
                y = DISCR.get(x) if x.op == "discr" else None
                if y:
                    t.setdefault(len(y), set()).update(vs)
            self.hints.tags = {k: sorted(v) for k, v in t.items()}
            t = self.hints.tags
        return t.get(len(m))

    def dom(self, n):
        if n.op == "discr":
            m = DISCR.get(n)
            if m:
                return tuple(sorted((k, k) for k in m))
        return tyrange(n.ty)

    def choose_len(self, n):
        S = self.target.get(n)
        if S is not None and self.r.random() < 0.97:
            return self.pick(inter(S, ((0, CAP),)) or inter(S, ((0, 1 << 40),)))
        h = self.hints.get(n)
        if h and self.r.random() < 0.4:
            h = [x for x in h if 0 <= x < CAP]
            if h:
                return self.r.choice(h)
        return self.r.choice((0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 6))

    def byte(self, off, n=None):
        k = self.key("in", off)
        v = self.asg.get(k)
        if v is None:
            v = self.pins.get(("in", off))
            if v is None:
                v = self.choose(n, ((0, 255),)) if n is not None else self.r.choice((0, 0, 1, 2, 3, 65, 97, 255, self.r.randint(0, 255)))
            self.asg[k] = v
        return v

    def toint(self, v):
        if isinstance(v, int):
            return v
        if isinstance(v, O):
            k = self.keys[v.key]
            if k[0] == "in":
                return self.byte(k[1])
            x = self.asg.get(v.key)
            if x is None:
                x = self.pins.get(k)
                if x is None:
                    x = self.r.choice((0, 1, 2, 3, self.r.randint(0, 255)))
                self.asg[v.key] = x
            return x
        raise GiveUp("number")

    def length(self, v):
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, V):
            return v.n
        if isinstance(v, O):
            k = self.key("len", v.key)
            x = self.asg.get(k)
            if x is None:
                x = self.pins.get(self.keys[k])
                if x is None:
                    x = self.r.choice((0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 6) if self.keys[v.key] != ("kept", "code") else (0, 1, 2, 3, 4, 5, 6, 7, 8, 10))
                self.asg[k] = x
            return x
        if isinstance(v, B):
            return self.length(v.base)
        raise GiveUp("length")

    def elems(self, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, V):
            if v.n > CAP:
                raise Invalid()
            self.steps += v.n // 8
            return tuple(O(self.key("in", v.off + i)) for i in range(v.n))
        if isinstance(v, O):
            n = self.length(v)
            if n > CAP or n < 0:
                raise Invalid()
            return tuple(O(self.key("idx", v.key, i)) for i in range(n))
        if isinstance(v, B):
            return (T("bits", (v,)),)
        raise GiveUp("elements of " + type(v).__name__)

    # ---- equality
    def eq(self, a, b):
        if a is b:
            return True
        self.tick()
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, O) and isinstance(b, O):
            if a.key == b.key:
                return True
            pair = (a.key, b.key) if a.key < b.key else (b.key, a.key)
            x, y = self.asg.get(a.key), self.asg.get(b.key)
            if x is not None and y is not None:
                r = x == y
            elif x is not None or y is not None:
                r = self.toint(a) == self.toint(b)
            elif self.asg.get(self.ids.get(("same",) + pair)):
                r = True
            else:
                la, lb = self.asg.get(self.ids.get(("len", a.key))), self.asg.get(self.ids.get(("len", b.key)))
                r = la == 0 and lb == 0
            if not r:
                self.neq.add(pair)
            elif pair in self.neq:
                # taken for different before
                raise Invalid()
            return r
        if isinstance(a, int) and isinstance(b, O) or isinstance(a, O) and isinstance(b, int):
            return self.toint(a) == self.toint(b)
        if isinstance(a, A) and isinstance(b, A):
            if a.ty != b.ty:
                if a.ty.startswith("closure") and b.ty.startswith("closure"):
                    return True
                return False
            if a.va != b.va:
                return False
            if a.names != b.names:
                raise GiveUp("fields")
            return all(self.eq(x, y) for x, y in zip(a.vals, b.vals))
        if isinstance(a, A) and isinstance(b, O):
            return self.eq_ao(a, b)
        if isinstance(b, A) and isinstance(a, O):
            return self.eq_ao(b, a)
        if isinstance(a, M) or isinstance(b, M):
            return self.eq_map(a, b)
        if isinstance(a, B) or isinstance(b, B):
            return self.eq_bits(a, b)
        if isinstance(a, (tuple, V)) or isinstance(b, (tuple, V)):
            if isinstance(a, (tuple, V, O)) and isinstance(b, (tuple, V, O)):
                if isinstance(a, V) and isinstance(b, V):
                    if a.n == b.n and (a.off == b.off or a.n == 0):
                        return True
                if self.length(a) != self.length(b):
                    return False
                return all(self.eq(x, y) for x, y in zip(self.elems(a), self.elems(b)))
            return False
        if isinstance(a, T) and isinstance(b, T):
            if a.tag != b.tag or len(a.args) != len(b.args):
                return False
            return all(self.eqx(x, y) for x, y in zip(a.args, b.args))
        return False

    def eqx(self, x, y):
        if isinstance(x, (str, bool)) or isinstance(y, (str, bool)) or x is None or y is None:
            return x == y
        return self.eq(x, y)

    def eq_ao(self, a, o):
        if a.va:
            vn = variant_no(a.ty, a.va)
            if vn is None:
                raise GiveUp("variant " + a.ty)
            k = self.key("discr", o.key)
            d = self.asg.get(k)
            if d is None:
                m = ADT[a.ty]
                d = self.pins.get(self.keys[k])
                if d is None:
                    d = self.r.choice(sorted(m))
                self.asg[k] = d
            if d != vn:
                return False
        ks = KEPT.get(a.ty, ())
        return all(self.eq(v, O(self.key("kept", n) if n in ks and n != "index" else self.key("fld", o.key, a.va, n))) for n, v in zip(a.names, a.vals))

    def mapview(self, v):
        if isinstance(v, M):
            return v.base, v.ops
        return v, ()

    def eq_map(self, a, b):
        ba, oa = self.mapview(a)
        bb, ob = self.mapview(b)
        if not self.eq(ba, bb):
            return False
        keys = []
        for k, v in list(oa) + list(ob):
            if not any(self.eq(k, x) for x in keys):
                keys.append(k)
        for k in keys:
            x, y = self.mlook(a, k), self.mlook(b, k)
            if (x is None) != (y is None):
                return False
            if x is not None and not self.eq(x, y):
                return False
        return True

    def mlook(self, m, k):
        """value or None"""
        base, ops = self.mapview(m)
        for kk, v in reversed(ops):
            if self.eq(kk, k):
                return v
        if base is MAP0V:
            return None
        if isinstance(base, T) and base.tag == "mapfrom":
            r = None
            for p in self.elems(base.args[0]):
                if not isinstance(p, A) or len(p.vals) != 2:
                    raise GiveUp("pair")
                if self.eq(p.vals[0], k):
                    r = p.vals[1]
            return r
        i = self.look("mapat", (base, k))
        h = self.key("has", i)
        if h not in self.asg:
            pv = self.pins.get(self.keys[h])
            self.asg[h] = self.r.randint(0, 1) if pv is None else pv
        return O(self.key("mapget", i)) if self.asg[h] else None

    def eq_bits(self, a, b):
        offs = set()
        for x in (a, b):
            if isinstance(x, B):
                offs |= set(x.ov)
        for off, w in offs:
            if self.bits(a, off, w) != self.bits(b, off, w):
                return False
        ba = a.base if isinstance(a, B) else a
        bb = b.base if isinstance(b, B) else b
        if isinstance(ba, O) and isinstance(bb, O):
            return ba.key == bb.key
        return self.eq(ba, bb) if not (isinstance(ba, B) or isinstance(bb, B)) else self.eq_bits(ba, bb)

    def bits(self, v, off, w, n=None):
        if isinstance(v, B):
            if (off, w) in v.ov:
                return v.ov[(off, w)]
            x = 0
            for i in range(w):
                for (o, ww), val in v.ov.items():
                    if o <= off + i < o + ww:
                        x |= ((val >> (off + i - o)) & 1) << i
                        break
                else:
                    x |= self.bits(v.base, off + i, 1) << i
            return x
        if isinstance(v, int):
            return (v >> off) & ((1 << w) - 1)
        if isinstance(v, (tuple, V)):
            e = self.elems(v)
            x = 0
            for i in range(w):
                q = (off + i) // 8
                if q >= len(e):
                    raise Invalid()
                x |= ((self.toint(e[q]) >> ((off + i) % 8)) & 1) << i
            return x
        if isinstance(v, O):
            ks = [self.key("bit", v.key, off + i) for i in range(w)]
            if n is not None and not any(k in self.asg for k in ks):
                x = self.choose(n, tyrange(n.ty))
                for i, k in enumerate(ks):
                    pv = self.pins.get(self.keys[k])
                    self.asg[k] = ((x >> i) & 1) if pv is None else pv
                if w == 1 and dang(n) == 0:
                    self.nodekey[n] = ks[0]
            x = 0
            for i, k in enumerate(ks):
                if k not in self.asg:
                    pv = self.pins.get(self.keys[k])
                    self.asg[k] = self.r.randint(0, 1) if pv is None else pv
                x |= self.asg[k] << i
            return x
        raise GiveUp("bits")

    # ---- uninterpreted functions
    def look(self, name, args):
        l = self.fn.setdefault(name, [])
        for a, i in l:
            if len(a) == len(args) and all(self.eqx(x, y) for x, y in zip(a, args)):
                return i
        i = self.key("fn", name, len(l))
        l.append((args, i))
        if len(l) > 60:
            raise Invalid()
        return i

    def tick(self, k=1):
        self.steps += k
        if self.steps > (3000000 if self.rounds == CAP else 800000):
            raise Invalid()

    # ---- evaluation
    def ev(self, n, env):
        d = near(n)
        if d < 0:
            memo = self.memo
        elif self.bound and has_bound(n):
            # depends on an element in hand and on a loop: not kept
            memo = {}
        else:
            # the value is the same in all rounds of the loops that it does not depend on
            fr = env
            while d:
                fr = fr.up
                d -= 1
            memo = fr.memo
        r = memo.get(n)
        if r is None:
            self.tick()
            f = EV.get(n.op)
            try:
                if f is None:
                    r = self.generic(n, env)
                else:
                    r = f(self, n, env)
            except Invalid:
                memo[n] = FAILED
                raise
            memo[n] = r
        elif r is FAILED:
            raise Invalid()
        return r

    def num(self, n, env):
        return self.toint(self.ev(n, env))

    def anyv(self, x, env):
        if isinstance(x, Nd):
            return self.ev(x, env)
        if isinstance(x, tuple):
            return tuple(self.anyv(y, env) for y in x)
        return x

    def generic(self, n, env):
        args = tuple(self.anyv(x, env) for x in n.a)
        return self.leaf(self.key(n.op, self.look(n.op, args)), n)

    def facts(self, fs, env):
        late = None
        for a, S in fs:
            if env is None and a not in self.marks:
                self.marks[a] = len(self.asg)
            try:
                v = self.num(a, env) if env is None or a.op != "lin" or self.r.random() > AIMED else self.near_bound(a, S, env)
            except Invalid:
                # not a value here: another condition may rule the case out
                late = late or sys.exc_info()[1]
                continue
            if not inS(v, S):
                return False
        if late is not None:
            raise late
        return True

    def near_bound(self, a, S, env):
        """the value of a sum; a part of it that is still to be chosen is chosen so that the sum lies at a bound of S"""
        c = [(x, k) for x, k in a.a[1] if k in (1, -1) and x.op == "fld"]
        if not c:
            return self.num(a, env)
        x, k = self.r.choice(c)
        t = a.a[0] + sum(q * self.num(y, env) for y, q in a.a[1] if y is not x)
        e = [b + j for iv in S for b, j in zip(iv, (-1, 1)) if -(1 << 40) < b < 1 << 40]
        e += [b for iv in S for b in iv if -(1 << 40) < b < 1 << 40]
        if e:
            w = (self.r.choice(e) - t) * k
            if inS(w, self.dom(x)):
                save = self.force
                self.force = dict(save or {})
                self.force[x] = ((w, w),)
                try:
                    return t + k * self.num(x, env)
                finally:
                    self.force = save
        return t + k * self.num(x, env)

    def items(self, its, env):
        out = []
        for it in its:
            self.item(it, env, out)
        return out

    def item(self, it, env, out):
        op = it.op
        self.tick()
        if op == "el":
            out.append(self.ev(it.a[0], env))
        elif op == "le":
            v = self.num(it.a[1], env) & ((1 << (8 * it.a[0])) - 1)
            out.extend(v.to_bytes(it.a[0], "little"))
        elif op == "lit":
            out.extend(it.a[0].encode())
        elif op == "span":
            v = self.ev(it.a[0], env)
            if isinstance(v, int):
                # the displayed form of a number
                out.extend(str(v).encode())
            else:
                out.extend(self.elems(v))
        elif op == "alt":
            v = self.num(it.a[0], env)
            for S, x in it.a[1]:
                if inS(v, S):
                    out.extend(self.elems(self.ev(x, env)))
                    return
            raise Invalid()
        elif op == "rep":
            _, vals = self.loop(it.a[0], env)
            out.extend(vals[it.a[1]].get())
        elif op == "bpseq":
            fr = env
            for _ in range(it.a[0]):
                fr = fr.up
            out.extend(fr.vals[it.a[1]].get())
        elif op == "fmt":
            kind, spec, tn, v = it.a
            x = self.ev(v, env)
            if isinstance(x, O) and tn in INTN:
                x = self.toint(x)
            txt = None
            if kind == "display":
                if isinstance(x, int) and tn in INTN:
                    txt = str(x)
                elif tn == "bool" and isinstance(x, (int, O)):
                    txt = "true" if self.toint(x) else "false"
                elif tn == "char" and isinstance(x, int) and 0 <= x < 0x110000 and not 0xd800 <= x < 0xe000:
                    txt = chr(x)
                elif tn == "str" and isinstance(x, tuple) and all(isinstance(c, int) for c in x):
                    try:
                        txt = bytes(x).decode()
                    except (ValueError, UnicodeDecodeError):
                        txt = None
            d = dict(spec)
            if isinstance(d.get("width"), Nd):
                d["width"] = self.num(d["width"], env)
                spec = tuple(sorted(d.items()))
            if txt is not None and spec != ():
                if set(d) == {"flags", "width"} and isinstance(d["width"], int):
                    fl, w = d["flags"], d["width"]
                    if w > CAP:
                        raise Invalid()
                    opt, al = fl >> 24 & 31, fl >> 29 & 3
                    if opt == 9 and tn in INTN:
                        # {:0w}
                        txt = txt.zfill(w)
                    elif opt == 8 and not (txt[0:1] == '-' and chr(fl & 0x1fffff) == '0'):
                        # {:c<w}, {:c>w}, {:c^w}; text stands to the left by default, numbers to the right
                        c = chr(fl & 0x1fffff)
                        k = max(0, w - len(txt))
                        left = 0 if al == 0 or al == 3 and tn not in INTN else k // 2 if al == 2 else k
                        txt = c * left + txt + c * (k - left)
                    else:
                        txt = None
                else:
                    txt = None
            if txt is not None:
                out.extend(txt.encode())
            else:
                if isinstance(x, int) and tn in INTN:
                    tn = "int"
                out.append(T("fmt", (kind, str(spec), tn, x)))
        elif op == "call":
            out.append(T("call", (self.ev(it.a[0], env),)))
        elif op in ("seek",):
            out.append(T("seek", (self.num(it.a[0], env),)))
        elif op == "flush":
            out.append(T("flush", ()))
        elif op in ("ins", "rem"):
            out.append(T(op, tuple(self.ev(x, env) for x in it.a)))
        else:
            raise GiveUp("item " + op)
        if len(out) > 4 * CAP:
            raise Invalid()

    def loop(self, L, env):
        d = near(L)
        if d < 0:
            memo = self.memo
        elif self.bound and has_bound(L):
            memo = {}
        else:
            fr = env
            while d:
                fr = fr.up
                d -= 1
            memo = fr.memo
        r = memo.get(L)
        if r is FAILED:
            raise Invalid()
        if r is not None:
            return r
        left = 4 if L.a[1].op == "until" and self.trying == 0 else 0
        while True:
            back = self.mark(env) if left else None
            try:
                r = self.loop1(L, env)
                break
            except Invalid:
                if back is None or len(self.asg) == back[0] or self.steps > 300000:
                    memo[L] = FAILED
                    raise
                # it does not end, or has no next round: other choices
                self.undo(back, env)
                left -= 1
        memo[L] = r
        return r

    def loop1(self, L, env):
        _, N, vars_, alts = L.a
        until = N.op == "until"
        kinds = [k for k, _ in vars_]
        vals = []
        for kind, init in vars_:
            if kind == "seq":
                vals.append(S([], 0))
            elif kind == "acc":
                vals.append(0)
            elif kind == "map":
                vals.append({})
            else:
                vals.append(self.ev(init, env))
        cnt = None if until else self.num(N, env)
        if cnt is not None and cnt > CAP:
            raise Invalid()
        k = 0
        began = self.steps
        same = 0
        limit = self.r.choice((0, 1, 1, 2, 2, 3, 4)) if until else 0
        while True:
            if cnt is not None:
                if k >= cnt:
                    break
            elif k > self.rounds or self.rounds < CAP and (same > 64 or k > limit + 8 and self.steps - began > 50000):
                raise Invalid()
            self.tick(2)
            # one round: leave the loop, or take one of its alternatives; choices over fresh values under which neither
            # is possible (or under which a loop that should be left goes on) are taken back
            exits = N.a[0] if until else ()
            leave = until and k >= limit and bool(exits)
            tries = ((40 if k == limit else 8) if leave else 12) >> 2 * self.trying
            ups = done = None
            chosen = len(self.asg)
            save = self.force
            for t in range(tries + 1):
                back = self.mark(env) if t < tries else None
                fr = Frame(k, vals, kinds, env)
                if t < tries and (leave or t or self.r.random() < 0.5):
                    c = self.r.choice(exits) if leave else self.r.choice(alts)[0] if alts else ()
                    self.force = dict(c)
                self.trying += t < tries
                try:
                    done = any(self.facts(c, fr) for c in exits)
                    if not done:
                        ups = None
                        for fs, u in alts:
                            if self.facts(fs, fr):
                                ups = u
                                break
                except Invalid:
                    done = ups = None
                    if back is None:
                        raise
                finally:
                    self.force = save
                    self.trying -= t < tries
                if done and (k >= limit or t >= STAY) or ups is not None and not leave or back is None:
                    break
                if len(self.asg) == back[0]:
                    # nothing was chosen: it would be the same again
                    break
                self.undo(back, env)
            if done:
                break
            if ups is None:
                raise Invalid()
            same = same + 1 if len(self.asg) == chosen else 0
            nv = []
            for kind, old, u in zip(kinds, vals, ups):
                if kind == "seq":
                    nv.append((old, self.items(u, fr)))
                elif kind == "acc":
                    nv.append((old, self.num(u, fr)))
                else:
                    nv.append((old, self.ev(u, fr)))
            vals2 = []
            for kind, (old, u) in zip(kinds, nv):
                if kind == "seq":
                    vals2.append(old.add(u))
                elif kind == "acc":
                    vals2.append(old + u)
                elif kind == "map":
                    o2 = dict(old) if len(old) < 2000 else old
                    o2[k] = u
                    vals2.append(o2)
                else:
                    vals2.append(u)
            vals = vals2
            k += 1
        return k, vals

    def mark(self, env):
        if type(self.memo) is not dict:
            return None
        ms = [(self.memo, len(self.memo))]
        while env is not None:
            ms.append((env.memo, len(env.memo)))
            env = env.up
        return len(self.asg), ms, {n: len(l) for n, l in self.fn.items()}

    def undo(self, back, env):
        na, ms, fn = back
        while len(self.asg) > na:
            self.asg.popitem()
        for d, n in ms:
            while len(d) > n:
                d.popitem()
        for n, l in self.fn.items():
            del l[fn.get(n, 0):]

    def rd_val(self, src, off, w, n):
        if isinstance(src, O) and self.keys[src.key] == ("input",):
            return self.rd_in(off, w, n)
        if isinstance(src, V):
            if off < 0 or off + w > src.n:
                raise Invalid()
            return self.rd_in(src.off + off, w, n)
        if isinstance(src, O):
            e = [O(self.key("idx", src.key, off + i)) for i in range(w)]
            if off + w > self.length(src):
                raise Invalid()
        else:
            e = self.elems(src)[off:off + w]
            if len(e) < w or off < 0:
                raise Invalid()
        return sum((self.toint(x) & 255) << (8 * i) for i, x in enumerate(e))

    def rd_in(self, off, w, n):
        ks = [self.key("in", off + i) for i in range(w)]
        if not any(k in self.asg for k in ks) and not any(("in", off + i) in self.pins for i in range(w)):
            x = self.choose(n, tyrange(n.ty)) & ((1 << (8 * w)) - 1)
            for i, k in enumerate(ks):
                self.asg[k] = (x >> (8 * i)) & 255
        if dang(n) == 0:
            self.nodekey[n] = ("rd", off, w)
        return sum(self.byte(off + i) << (8 * i) for i in range(w))


class S:
    """a prefix of a list that only grows"""
    __slots__ = ("l", "n")

    def __init__(self, l, n):
        self.l, self.n = l, n

    def get(self):
        return self.l if self.n == len(self.l) else self.l[:self.n]

    def add(self, u):
        if self.n != len(self.l):
            return S(self.l[:self.n] + u, self.n + len(u))
        self.l.extend(u)
        return S(self.l, self.n + len(u))


INTN = {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize"}
EV = {}


def ev(*ops):
    def d(f):
        for o in ops:
            EV[o] = f
        return f
    return d


@ev("int")
def _(m, n, env):
    return n.a[0]


@ev("str")
def _(m, n, env):
    return tuple(n.a[0].encode())


@ev("lin")
def _(m, n, env):
    t = n.a[0]
    for x, k in n.a[1]:
        t += k * m.num(x, env)
    return t


@ev("arg")
def _(m, n, env):
    return m.leaf(m.key("arg", n.a[0]), n)


@ev("input")
def _(m, n, env):
    return O(m.key("input"))


@ev("fld")
def _(m, n, env):
    x = m.ev(n.a[0], env)
    _, va, nm = n.a
    if isinstance(x, A):
        if x.va != va or nm not in x.names:
            raise Invalid()
        v = x.vals[x.names.index(nm)]
        return coerce(m, v, n)
    if isinstance(x, O):
        if x.ty in KEPT and nm in KEPT[x.ty]:
            return m.kept(x, va, nm, n)
        return m.leaf(m.key("fld", x.key, va, nm), n)
    if isinstance(x, M) or isinstance(x, T):
        raise GiveUp("fld of " + type(x).__name__)
    raise Invalid()


def coerce(m, v, n):
    """an untyped leaf read through a typed term"""
    if isinstance(v, O) and n.ty is not None and not (isinstance(n.ty, tuple) and n.ty[0] == "adt"):
        if m.keys[v.key][0] == "in":
            return m.byte(m.keys[v.key][1], n)
        return m.leaf(v.key, n)
    return v


@ev("idx")
def _(m, n, env):
    s = m.ev(n.a[0], env)
    i = m.num(n.a[1], env)
    if isinstance(s, tuple):
        if not 0 <= i < len(s):
            raise Stuck()
        return coerce(m, s[i], n)
    if isinstance(s, V):
        if not 0 <= i < s.n:
            raise Invalid()
        return m.byte(s.off + i, n)
    if isinstance(s, O):
        return m.leaf(m.key("idx", s.key, i), n)
    raise GiveUp("idx")


@ev("discr")
def _(m, n, env):
    x = m.ev(n.a[0], env)
    if isinstance(x, A):
        mp = DISCR.get(n) or ADT.get(x.ty)
        if mp:
            for k, v in mp.items():
                if v == x.va:
                    return k
        v = variant_no(x.ty, x.va)
        if v is None:
            raise GiveUp("variant of " + x.ty)
        return v
    if isinstance(x, O):
        k = m.key("discr", x.key)
        if n.ty is None:
            raise GiveUp("discr")
        return m.leaf(k, n)
    raise GiveUp("discr of " + type(x).__name__)


@ev("len")
def _(m, n, env):
    x = m.ev(n.a[0], env)
    if isinstance(x, O):
        return m.leaf(m.key("len", x.key), n)
    return m.length(x)


@ev("agg")
def _(m, n, env):
    ty, va, names, vals = n.a
    if ty == "Map":
        base = m.ev(vals[0], env)
        return mkM(m, base, m.items(items_of(vals[1]), env) if vals[1].op in ("seq", "str") else list(m.elems(m.ev(vals[1], env))))
    return A(ty, va, names, tuple(m.ev(v, env) for v in vals))


def mkM(m, base, its):
    ops = []
    if isinstance(base, M):
        ops = list(base.ops)
        base = base.base
    for it in its:
        if not isinstance(it, T) or it.tag not in ("ins", "rem"):
            raise GiveUp("map item")
        ops.append((it.args[0], it.args[1] if it.tag == "ins" else None))
    if not ops:
        return base
    return M(base, tuple(ops))


@ev("mapof")
def _(m, n, env):
    base = m.ev(n.a[0], env)
    its = n.a[1]
    return mkM(m, base, m.items(items_of(its), env))


@ev("map0")
def _(m, n, env):
    return MAP0V


@ev("mapfrom")
def _(m, n, env):
    return T("mapfrom", (m.ev(n.a[0], env),))


@ev("has")
def _(m, n, env):
    mp = m.ev(n.a[0], env)
    k = m.ev(n.a[1], env)
    base, ops = m.mapview(mp)
    if isinstance(base, O) and not any(m.eq(kk, k) for kk, _ in ops):
        i = m.look("mapat", (base, k))
        return m.leaf(m.key("has", i), n)
    return 1 if m.mlook(mp, k) is not None else 0


@ev("mapget")
def _(m, n, env):
    v = m.mlook(m.ev(n.a[0], env), m.ev(n.a[1], env))
    if v is None:
        raise Stuck()
    return coerce(m, v, n)


@ev("mapold")
def _(m, n, env):
    v = m.mlook(m.ev(n.a[0], env), m.ev(n.a[1], env))
    return A("std::option::Option", "None", (), ()) if v is None else A("std::option::Option", "Some", ("0",), (v,))


@ev("notin")
def _(m, n, env):
    return 1 if m.mlook(m.ev(n.a[0], env), m.ev(n.a[1], env)) is None else 0


@ev("maplen")
def _(m, n, env):
    mp = m.ev(n.a[0], env)
    base, ops = m.mapview(mp)
    if isinstance(base, O):
        c = m.asg.setdefault(m.key("maplen", base.key), m.r.choice((0, 1, 2, 3)))
    elif base is MAP0V:
        c = 0
    else:
        raise GiveUp("maplen")
    seen = []
    for k, v in ops:
        if any(m.eq(k, x) for x in seen):
            continue
        seen.append(k)
        a = m.mlook(base, k) is not None
        b = m.mlook(mp, k) is not None
        c += int(b) - int(a)
    return c


@ev("entries", "keys", "values")
def _(m, n, env):
    mp = m.ev(n.a[0], env)
    base, ops = m.mapview(mp)
    if isinstance(base, O) and not ops:
        return O(m.key(n.op, base.key))
    if base is not MAP0V:
        raise GiveUp("entries")
    ks = []
    for k, v in ops:
        if not any(m.eq(k, x) for x in ks):
            ks.append(k)
    out = []
    for k in ks:
        v = m.mlook(mp, k)
        if v is not None:
            out.append(k if n.op == "keys" else v if n.op == "values" else A("tuple", "", ("0", "1"), (k, v)))
    return tuple(out)


@ev("seq")
def _(m, n, env):
    if not n.a[0]:
        return ()
    return tuple(m.items(n.a[0], env))


@ev("rep", "alt", "span", "le", "lit", "bpseq", "fmt", "call", "flush", "seek", "ins", "rem", "el")
def _(m, n, env):
    out = []
    m.item(n, env, out)
    return tuple(out)


@ev("itemlen", "replen")
def _(m, n, env):
    out = []
    m.item(n.a[0], env, out)
    return len(out)


@ev("in")
def _(m, n, env):
    return 1 if inS(m.num(n.a[0], env), n.a[1]) else 0


@ev("not")
def _(m, n, env):
    return 1 - m.num(n.a[0], env)


@ev("band")
def _(m, n, env):
    return 1 if m.num(n.a[0], env) and m.num(n.a[1], env) else 0


@ev("case")
def _(m, n, env):
    v = m.num(n.a[0], env)
    for S, x in n.a[1]:
        if inS(v, S):
            return m.ev(x, env)
    raise Invalid()


@ev("bk")
def _(m, n, env):
    for _ in range(n.a[0]):
        env = env.up
    return env.k


@ev("bpv")
def _(m, n, env):
    for _ in range(n.a[0]):
        env = env.up
    v = env.vals[n.a[1]]
    if env.kinds[n.a[1]] == "seq":
        return tuple(v.get())
    return coerce(m, v, n)


@ev("bpmap")
def _(m, n, env):
    fr = env
    for _ in range(n.a[1]):
        fr = fr.up
    return updated(m, m.ev(n.a[0], env), fr.vals[n.a[2]])


def updated(m, base, ups):
    e = list(m.elems(base))
    for i, v in ups.items():
        if not 0 <= i < len(e):
            raise Invalid()
        e[i] = v
    return tuple(e)


@ev("mapx")
def _(m, n, env):
    _, vals = m.loop(n.a[0], env)
    return updated(m, m.ev(n.a[2], env), vals[n.a[1]])


@ev("kx")
def _(m, n, env):
    return m.loop(n.a[0], env)[0]


@ev("sum", "phix")
def _(m, n, env):
    v = m.loop(n.a[0], env)[1][n.a[1]]
    if isinstance(v, S):
        v = tuple(v.get())
    return coerce(m, v, n) if n.op == "phix" else v


@ev("upd")
def _(m, n, env):
    return updated(m, m.ev(n.a[0], env), {m.num(n.a[1], env): m.ev(n.a[2], env)})


@ev("slice")
def _(m, n, env):
    s = m.ev(n.a[0], env)
    lo, hi = m.num(n.a[1], env), m.num(n.a[2], env)
    if lo < 0 or lo > hi:
        raise Invalid()
    if isinstance(s, V):
        if hi > s.n:
            raise Invalid()
        return V(s.off + lo, hi - lo)
    e = m.elems(s)
    if hi > len(e):
        raise Invalid()
    return e[lo:hi]


@ev("fill")
def _(m, n, env):
    c = m.num(n.a[1], env)
    if not 0 <= c <= CAP:
        raise Invalid()
    return (m.ev(n.a[0], env),) * c


@ev("overwrite")
def _(m, n, env):
    cur = list(m.elems(m.ev(n.a[0], env)))
    pos = m.num(n.a[1], env)
    buf = m.elems(m.ev(n.a[2], env))
    if pos < 0 or pos > CAP:
        raise Invalid()
    while len(cur) < pos:
        cur.append(0)
    cur[pos:pos + len(buf)] = buf
    return tuple(cur)


@ev("bytes")
def _(m, n, env):
    src = m.ev(n.a[0], env)
    lo, c = m.num(n.a[1], env), m.num(n.a[2], env)
    if c < 0 or lo < 0:
        raise Invalid()
    if isinstance(src, O) and m.keys[src.key] == ("input",):
        return V(lo, c)
    if isinstance(src, V):
        if lo + c > src.n:
            raise Invalid()
        return V(src.off + lo, c)
    e = m.elems(src)
    if lo + c > len(e):
        raise Invalid()
    return e[lo:lo + c]


@ev("rd")
def _(m, n, env):
    ty, src, off = n.a
    w = int(ty[1:]) // 8
    x = m.rd_val(m.ev(src, env), m.num(off, env), w, n)
    if ty[0] == "i" and x >= 1 << (8 * w - 1):
        x -= 1 << (8 * w)
    return x


@ev("byte")
def _(m, n, env):
    return (m.num(n.a[0], env) >> (8 * n.a[1])) & 255


@ev("trunc")
def _(m, n, env):
    ty, x = n.a
    w = int(ty[1:])
    v = m.num(x, env) & ((1 << w) - 1)
    if ty[0] == "i" and v >= 1 << (w - 1):
        v -= 1 << w
    return v


@ev("bits")
def _(m, n, env):
    return m.bits(m.ev(n.a[0], env), n.a[1], n.a[2], n)


@ev("setbits")
def _(m, n, env):
    b = m.ev(n.a[0], env)
    return B(b, {(o, w): m.num(v, env) for o, w, v in n.a[1]})


@ev("iff")
def _(m, n, env):
    return int((m.num(n.a[0], env) != 0) == (m.num(n.a[1], env) != 0))


@ev("ord")
def _(m, n, env):
    a, b = m.ev(n.a[0], env), m.ev(n.a[1], env)
    if isinstance(a, int) and isinstance(b, int):
        return A("std::cmp::Ordering", "Less" if a < b else "Equal" if a == b else "Greater", (), ())
    return m.leaf(m.key("ord", m.look("ord", (a, b))), n)


@ev("mul")
def _(m, n, env):
    return m.num(n.a[0], env) * m.num(n.a[1], env)


@ev("crc32")
def _(m, n, env):
    e = m.elems(m.ev(n.a[0], env))
    if all(isinstance(x, int) for x in e):
        return zlib.crc32(bytes(x & 255 for x in e))
    return m.leaf(m.key("crc32", m.look("crc32", (e,))), n)


def strval(m, v):
    """concrete bytes of a string value, or None"""
    if isinstance(v, O):
        return None
    e = m.elems(v)
    if all(isinstance(x, int) or isinstance(x, O) for x in e):
        return bytes(m.toint(x) & 255 for x in e)
    return None


# ---- functions of the library over text, on texts whose bytes are chosen
def literal(h):
    from .prims import STRS
    return STRS.get(h)


def written(m, v):
    """the text of a string whose bytes are all chosen already, or None"""
    n = m.asg.get(m.ids.get(("len", v.key)))
    if n is None or not 0 <= n <= 40:
        return None
    out = []
    for i in range(n):
        x = m.asg.get(m.ids.get(("idx", v.key, i)))
        if x is None:
            return None
        out.append(x & 255)
    return bytes(out).decode("latin-1")


def pieces(m):
    h = m.hints
    p = getattr(h, "pieces", None)
    if p is None:
        p = h.pieces = sorted(h.texts) if hasattr(h, "texts") else []
        h.chars = [x for x in p if len(x) == 1]
    return p


def text(m, v):
    """the value of a string as Python text, chosen now where it is still open; None if it has no bytes"""
    if isinstance(v, O):
        t = written(m, v)
        if t is not None:
            return t
        sid = m.asg.get(m.ids.get(("strid", v.key)))
        lk = m.key("len", v.key)
        n = m.asg.get(lk, m.pins.get(("len", v.key)))
        want = None
        if sid is not None:
            want = literal(sid)
            if want is None and sid > 1 << 70:
                return None
        if want is None:
            ps = pieces(m)
            want = ""
            k = m.r.choice((1, 1, 2, 2, 3, 3, 4, 5))
            few = ["a", "b"]
            if ps:
                few = [m.r.choice(ps), m.r.choice(getattr(m.hints, "chars", None) or ps), m.r.choice("ab0A")]
            for _ in range(k if n is None else 60):
                if n is not None and len(want) >= n:
                    break
                want += m.r.choice(few)
            if n is not None:
                want = want[:n]
        if n is not None and len(want) != n or len(want) > 40:
            raise Invalid()
        m.asg[lk] = len(want)
        for i, c in enumerate(want):
            k = m.key("idx", v.key, i)
            if k not in m.asg:
                x = m.pins.get(("idx", v.key, i))
                m.asg[k] = ord(c) if x is None else x
        t = written(m, v)
        if sid is not None and literal(sid) != t:
            from .prims import strhash
            if literal(sid) is not None or strhash(t) in m.hints.strids:
                raise Invalid()
        return t
    if isinstance(v, (tuple, V)):
        e = m.elems(v)
        if len(e) > 200 or not all(isinstance(x, (int, O)) for x in e):
            return None
        return bytes(m.toint(x) & 255 for x in e).decode("latin-1")
    return None


def bytesof(s):
    return tuple(s.encode("latin-1"))


def opt(v):
    return A("std::option::Option", "None", (), ()) if v is None else A("std::option::Option", "Some", ("0",), (v,))


def pair(p):
    return None if p is None else A("tuple", "", ("0", "1"), (bytesof(p[0]), bytesof(p[1])))


def cut(s, p, right):
    if p == "":
        return None
    i = s.rfind(p) if right else s.find(p)
    return None if i < 0 else (s[:i], s[i + len(p):])


def strips(s, p, left, right):
    if p == "":
        return s
    while left and s.startswith(p):
        s = s[len(p):]
    while right and s.endswith(p):
        s = s[:-len(p)]
    return s


def cutinto(s, p, keep):
    """split_terminator, split_inclusive"""
    if p == "":
        raise GiveUp("split")
    l = s.split(p)
    last = l.pop()
    return tuple(bytesof(x + p if keep else x) for x in l) + ((bytesof(last),) if last else ())


def lines(s):
    l = s.split("\n")
    last = l.pop()
    return tuple(bytesof(x[:-1] if x.endswith("\r") else x) for x in l) + ((bytesof(last),) if last else ())


def splits(s, p):
    if p == "":
        raise GiveUp("split")
    return tuple(bytesof(x) for x in s.split(p))


def nth(s, p, n, rev):
    if p == "" or n <= 0:
        raise GiveUp("split")
    l = s.rsplit(p, n - 1)[::-1] if rev else s.split(p, n - 1)
    return tuple(bytesof(x) for x in l)


WS = " \t\n\r\x0b\x0c"
TEXT = {
    "contains": lambda s, p: int(p in s),
    "starts_with": lambda s, p: int(s.startswith(p)),
    "ends_with": lambda s, p: int(s.endswith(p)),
    "strip_prefix": lambda s, p: opt(bytesof(s[len(p):]) if s.startswith(p) else None),
    "strip_suffix": lambda s, p: opt(bytesof(s[:len(s) - len(p)]) if s.endswith(p) else None),
    "split_once": lambda s, p: opt(pair(cut(s, p, False))),
    "rsplit_once": lambda s, p: opt(pair(cut(s, p, True))),
    "find": lambda s, p: opt(s.find(p) if p in s else None),
    "rfind": lambda s, p: opt(s.rfind(p) if p in s else None),
    "replace": lambda s, p, q: bytesof(s.replace(p, q)) if p else None,
    "replacen": lambda s, p, q, n: bytesof(s.replace(p, q, n)) if p else None,
    "trim": lambda s: bytesof(s.strip(WS)),
    "trim_start": lambda s: bytesof(s.lstrip(WS)),
    "trim_end": lambda s: bytesof(s.rstrip(WS)),
    "trim_matches": lambda s, p: bytesof(strips(s, p, True, True)),
    "trim_start_matches": lambda s, p: bytesof(strips(s, p, True, False)),
    "trim_end_matches": lambda s, p: bytesof(strips(s, p, False, True)),
    "to_lowercase": lambda s: bytesof("".join(c.lower() if c < "\x80" else c for c in s)),
    "to_uppercase": lambda s: bytesof("".join(c.upper() if c < "\x80" else c for c in s)),
    "split": splits,
    "split_terminator": lambda s, p: cutinto(s, p, False),
    "split_inclusive": lambda s, p: cutinto(s, p, True),
    "split_whitespace": lambda s: tuple(bytesof(x) for x in re.split("[" + WS + "]+", s) if x),
    "split_ascii_whitespace": lambda s: tuple(bytesof(x) for x in re.split("[ \t\n\r\x0c]+", s) if x),
    "lines": lines,
    "rsplit": lambda s, p: splits(s, p)[::-1],
    "splitn": lambda s, n, p: nth(s, p, n, False),
    "rsplitn": lambda s, n, p: nth(s, p, n, True),
    "chars": lambda s: tuple(bytesof(s)) if s.isascii() else None,
    "repeat": lambda s, n: bytesof(s * n) if n * len(s) < CAP else None,
}
TEXT["to_ascii_lowercase"] = TEXT["to_lowercase"]
TEXT["to_ascii_uppercase"] = TEXT["to_uppercase"]


def textfn(m, name, args):
    """value of a function of the library on chosen texts, or None"""
    f = TEXT.get(name)
    if f is None:
        return None
    if name == "chars":
        # ranges over any text
        return None
    vs = []
    for i, a in enumerate(args):
        if isinstance(a, int):
            if name in ("repeat",) or name in ("splitn", "rsplitn") and i == 1 or name == "replacen" and i == 3:
                vs.append(a)
            elif 0 <= a < 128:
                vs.append(chr(a))
            else:
                return None
        else:
            vs.append(a)
    # patterns first: a text is chosen only where the function is going to be applied
    for i in list(range(1, len(vs))) + [0]:
        if not isinstance(vs[i], (str, int)):
            if isinstance(vs[i], A):
                return None
            vs[i] = text(m, vs[i])
            if vs[i] is None:
                return None
    try:
        r = f(*vs)
    except TypeError:
        r = None
    if r is None:
        m.unknown.add(name)
    return r


SPLITS = ("split", "splitn", "rsplitn", "rsplit", "split_terminator", "split_inclusive", "split_whitespace", "split_ascii_whitespace", "lines")


@ev(*SPLITS)
def _(m, n, env):
    args = tuple(m.anyv(x, env) for x in n.a)
    r = textfn(m, n.op, args)
    if r is not None:
        return r
    return m.leaf(m.key(n.op, m.look(n.op, args)), n)


@ev("strid")
def _(m, n, env):
    v = m.ev(n.a[0], env)
    if isinstance(v, O) and m.asg.get(m.ids.get(("strid", v.key))) is None:
        t = written(m, v)
        if t is not None:
            from .prims import strhash
            return strhash(t)
    if isinstance(v, O):
        k = m.key("strid", v.key)
        x = m.asg.get(k)
        if x is None:
            x = m.pins.get(m.keys[k])
            if x is None:
                S = m.target.get(n)
                h = m.hints.get(n)
                if S is not None and len(S) == 1 and S[0][0] == S[0][1]:
                    x = S[0][0]
                elif h and m.r.random() < 0.5 and S is None:
                    x = m.r.choice(h)
                else:
                    x = 7 + v.key
            m.asg[k] = x
            if dang(n) == 0:
                m.nodekey[n] = k
        return x
    b = strval(m, v)
    if b is None:
        return 3 + m.look("strid", (v,))
    from .prims import strhash
    try:
        return strhash(b.decode())
    except UnicodeDecodeError:
        return 5


@ev("streq", "equal")
def _(m, n, env):
    a, b = m.ev(n.a[0], env), m.ev(n.a[1], env)
    if m.eq(a, b):
        return 1
    if isinstance(a, O) and isinstance(b, O):
        x, y = sorted((a.key, b.key))
        return m.leaf(m.key("same", x, y), n)
    return 0


@ev("utf8")
def _(m, n, env):
    v = m.ev(n.a[0], env)
    S = m.target.get(n)
    if not isinstance(v, O):
        b = strval(m, v)
        if b is not None:
            try:
                b.decode()
                return 1
            except UnicodeDecodeError:
                return 0
    k = m.key("utf8", m.look("utf8", (v,)))
    return m.leaf(k, n)


@ev("rec")
def _(m, n, env):
    name, args = n.a
    if m.cuts is not None and name not in m.cuts:
        m.unknown.add(name)
    return O(m.look("rec:" + name, tuple(m.anyv(x, env) for x in args)))


@ev("ret", "retok", "reterr", "reclen")
def _(m, n, env):
    c = m.ev(n.a[0], env)
    return m.leaf(m.key(n.op, c.key), n)


@ev("recmut")
def _(m, n, env):
    c = m.ev(n.a[0], env)
    return m.leaf(m.key("recmut", c.key, n.a[1]), n)


@ev("extmut")
def _(m, n, env):
    name, j, fa = n.a
    ext_known(m, name)
    return m.leaf(m.key("extmut", m.look("ext:" + name, tuple(m.anyv(x, env) for x in fa)), j), n)


def ext_known(m, name):
    if name.startswith(("core::str::<impl str>::", "std::str::<impl str>::")) and name.rsplit("::", 1)[1] in TEXT:
        return
    if name not in KNOWN_EXT and not name.endswith(CHANGES):
        m.unknown.add(name)


@ev("ext")
def _(m, n, env):
    name, fa = n.a
    if name.endswith("<impl [T]>::join") and len(fa) == 2:
        out = []
        sep = m.elems(m.ev(fa[1], env))
        for i, x in enumerate(m.elems(m.ev(fa[0], env))):
            if i:
                out.extend(sep)
            out.extend(m.elems(x))
            if len(out) > CAP:
                raise Invalid()
        return tuple(out)
    ext_known(m, name)
    if name.startswith(("core::str::<impl str>::", "std::str::<impl str>::")):
        args = tuple(m.anyv(x, env) for x in fa)
        r = textfn(m, name.rsplit("::", 1)[1], args)
        if r is not None:
            return r
    if name.endswith("binary_search_by") or name.endswith("binary_search_by_key"):
        return bsearch(m, n, env)
    return m.leaf(m.key("ext", m.look("ext:" + name, tuple(m.anyv(x, env) for x in fa))), n)


def bsearch(m, n, env):
    name, fa = n.a
    e = m.elems(m.ev(fa[0], env))
    keys = fa[-1].a[0]
    if e and m.r.random() < 0.8:
        aim(m, keys, e, env)
    vec = []
    for x in e:
        m.bound.append(x)
        fr = Frame(0, [], [], env)
        try:
            # terms under the bound element are evaluated afresh for each element
            save = m.memo
            m.memo = BoundMemo(save)
            for fs, v in keys:
                if all(inS(m.num(a, env if dang(a) else None), S) for a, S in fs):
                    r = m.ev(v, env)
                    break
            else:
                raise Invalid()
        finally:
            m.memo = save
            m.bound.pop()
        vec.append(r)
    if name.endswith("_key"):
        raise GiveUp("binary_search_by_key")
    o = []
    for r in vec:
        if isinstance(r, A):
            o.append(r.va)
        else:
            raise GiveUp("ordering")
    rank = {"Less": 0, "Equal": 1, "Greater": 2}
    q = [rank.get(x, 3) for x in o]
    if 3 not in q and q == sorted(q):
        if 1 in q:
            if q.count(1) == 1:
                return A("std::result::Result", "Ok", ("0",), (q.index(1),))
        else:
            return A("std::result::Result", "Err", ("0",), (q.count(0),))
    return m.leaf(m.key("ext", m.look("ext:" + name, (tuple(q),))), n)


def aim(m, keys, e, env):
    """what is searched for: if it is still to be chosen, make it one of the elements"""
    for _, v in keys:
        if v.op != "case" or v.a[0].op != "lin":
            continue
        c, d = lin_parts(v.a[0])
        b = [t for t in d if t.op == "bound"]
        if len(b) != 1 or abs(d[b[0]]) != 1:
            continue
        # bound = want, where want is the rest
        k = -d[b[0]]
        rest = {t: x * k for t, x in d.items() if t is not b[0]}
        want = m.toint(m.r.choice(e)) - c * k
        while len(rest) == 1:
            (t, x), = rest.items()
            if t.op == "trunc" and x == 1:
                c2, rest = lin_parts(t.a[1])
                want -= c2
                continue
            break
        # the values in hand first, then one that takes up the difference
        ts = sorted(rest, key=lambda t: (t.op not in ("fld", "arg"), dig(t)))
        ts = [t for t in ts if abs(rest[t]) == 1][:1]
        if not ts or ts[0].ty is None:
            continue
        t = ts[0]
        for u in rest:
            if u is not t:
                want -= rest[u] * m.num(u, env)
        want *= rest[t]
        S = inter(((want, want),), tyrange(t.ty))
        if not S:
            continue
        save = m.force
        m.force = {t: S}
        try:
            m.num(t, env)
        finally:
            m.force = save


class BoundMemo(dict):
    """memo of terms evaluated while an element is bound"""

    def __init__(self, outer):
        self.outer = outer

    def get(self, n, d=None):
        r = dict.get(self, n)
        if r is None and not has_bound(n):
            r = self.outer.get(n)
        return r

    def __setitem__(self, n, v):
        if has_bound(n):
            dict.__setitem__(self, n, v)
        else:
            self.outer[n] = v


_hb = {}


def has_bound(n):
    """does n depend on the element in hand (the keys of searches and sorts inside n have their own)"""
    if isinstance(n, tuple):
        return any(has_bound(y) for y in n if isinstance(y, (Nd, tuple)))
    if not isinstance(n, Nd):
        return False
    r = _hb.get(n)
    if r is None:
        if n.op == "bound":
            r = True
        elif n.op == "key":
            r = False
        elif n.op == "sorted":
            r = has_bound(n.a[0])
        else:
            r = has_bound(n.a)
        _hb[n] = r
    return r


@ev("bound")
def _(m, n, env):
    if not m.bound:
        raise GiveUp("bound")
    return m.bound[-1]


@ev("sorted")
def _(m, n, env):
    s = list(m.elems(m.ev(n.a[0], env)))
    key = n.a[1]
    if key.op == "opaque":
        raise GiveUp("sort key")
    ks = []
    for x in s:
        if key.op == "self":
            v = x
        else:
            m.bound.append(x)
            save = m.memo
            m.memo = BoundMemo(save)
            try:
                v = m.ev(key, env)
            finally:
                m.memo = save
                m.bound.pop()
        ks.append(order_key(m, v))
    try:
        o = sorted(range(len(s)), key=lambda i: ks[i])
    except TypeError:
        raise GiveUp("sort key")
    return tuple(s[i] for i in o)


def order_key(m, v):
    if isinstance(v, int):
        return (0, v)
    if isinstance(v, O):
        return (1, v.key)
    if isinstance(v, A):
        if v.ty.endswith("Reverse"):
            raise GiveUp("reverse")
        d = variant_no(v.ty, v.va) if v.va else 0
        return (2, d) + tuple(order_key(m, x) for x in v.vals)
    if isinstance(v, (tuple, V)):
        return (3,) + tuple(order_key(m, x) for x in m.elems(v))
    raise GiveUp("order")


@ev("fa")
def _(m, n, env):
    return T("fa", (n.a[0], m.ev(n.a[2], env)))


@ev("ioerror", "other", "stream", "self", "utf8err", "badbits", "ioerr")
def _(m, n, env):
    return T(n.op, tuple(m.anyv(x, env) for x in n.a))


@ev("ref")
def _(m, n, env):
    return T("ref", (str(n.a),))


@ev("opaque", "bad", "uninit", "k", "pv", "pseq", "pmap", "key", "partialread", "shortread", "shortwrite")
def _(m, n, env):
    raise GiveUp(n.op)


# ---------------------------------------------------------------- comparison
def gather_hints(paths):
    """{node: interesting values}, from every fact, membership and case in the summaries"""
    out = {}

    def add(a, S):
        c, d = lin_parts(a)
        for t, k in d.items():
            if k not in (1, -1):
                continue
            for lo, hi in S:
                for e in (lo, hi):
                    if abs(e) >= INF:
                        continue
                    v = (e - c) * k
                    l = out.setdefault(t, set())
                    if len(l) < 200:
                        l.update((v - 1, v, v + 1) if t.op != "strid" else (v,))
        for t in d:
            x = t
            while x.op == "trunc":
                x = x.a[1]
                if t in out and x not in out and x.op != "lin":
                    out[x] = out[t]

    seen = set()
    texts = set("")
    strids = set()

    def txt(t):
        if t and len(t) < 24 and t.isascii():
            texts.add(t)
            texts.update(t[:2])

    def f(n):
        if n.op == "str":
            txt(n.a[0])
        elif n.op == "lit":
            txt(n.a[0])
        elif n.op == "ext" or n.op in SPLITS:
            nm = n.a[0].rsplit("::", 1)[-1] if n.op == "ext" else n.op
            if nm in ("trim", "trim_start", "trim_end", "lines") or nm.endswith("whitespace"):
                texts.update(" \t\n")
            for x in (n.a[1] if n.op == "ext" else n.a)[1:]:
                if isinstance(x, Nd) and x.op == "int" and 32 <= x.a[0] < 127:
                    txt(chr(x.a[0]))
        if n.op == "strid":
            pass
        if n.op in ("case", "alt"):
            for S, _ in n.a[1]:
                add(n.a[0], S)
        elif n.op == "in":
            add(n.a[0], n.a[1])
        elif n.op == "until":
            for c in n.a[0]:
                for a, S in c:
                    add(a, S)
        elif n.op == "loop":
            for fs, _ in n.a[3]:
                for a, S in fs:
                    add(a, S)

    for fs, kind, ret, outs in paths:
        for a, S in fs:
            add(a, S)
            walk(a, f, seen)
        walk(ret, f, seen)
        for _, v in outs:
            walk(v, f, seen)
    h = Hints((n, sorted(v)) for n, v in out.items())
    for n, v in out.items():
        if n.op == "strid":
            for x in v:
                strids.add(x)
                if literal(x):
                    txt(literal(x))
    h.texts = texts
    h.strids = strids
    return h


class Hints(dict):
    pass


class Finding:
    def __init__(self, where, a, b, facts, values):
        self.where, self.a, self.b, self.facts, self.values = where, a, b, facts, values


def render(m, v, d=0):
    if isinstance(v, O):
        x = m.asg.get(v.key)
        if x is not None:
            return str(x)
        return keyname(m, v.key)
    if isinstance(v, A):
        if d > 5:
            return "…"
        nm = v.va or v.ty.split("::")[-1]
        return nm + "{" + ", ".join("%s: %s" % (n, render(m, x, d + 1)) for n, x in zip(v.names, v.vals)) + "}"
    if isinstance(v, tuple):
        if v and all(isinstance(x, int) and 0 <= x < 256 for x in v[:20]):
            return repr(bytes(x for x in v[:60] if isinstance(x, int) and 0 <= x < 256))
        return "[" + ", ".join(render(m, x, d + 1) if not isinstance(x, str) else x for x in v[:12]) + (", … %d items]" % len(v) if len(v) > 12 else "]")
    if isinstance(v, T):
        return v.tag + "(" + ", ".join(render(m, x, d + 1) if not isinstance(x, (str, type(None))) else str(x) for x in v.args) + ")"
    if isinstance(v, V):
        return "input[%d..%d]" % (v.off, v.off + v.n)
    if isinstance(v, M):
        return "map{" + render(m, v.base) + "; " + ", ".join("%s=%s" % (render(m, k), render(m, x) if x is not None else "-") for k, x in v.ops[:8]) + "}"
    if isinstance(v, B):
        return "bits(" + render(m, v.base) + ", %s)" % v.ov
    return str(v)


def keyname(m, i, d=0):
    if d > 6:
        return "…"
    k = m.keys[i]
    if k[0] == "arg":
        return k[1]
    if k[0] == "fld":
        return keyname(m, k[1], d + 1) + "." + (k[2] + "." if k[2] else "") + k[3]
    if k[0] == "idx":
        return "%s[%s]" % (keyname(m, k[1], d + 1), k[2])
    if k[0] in ("len", "discr", "strid", "bit", "ret", "retok", "reterr", "recmut", "has", "mapget", "reclen", "entries", "keys", "values"):
        return "%s(%s%s)" % (k[0], keyname(m, k[1], d + 1), "".join(",%s" % x for x in k[2:]))
    if k[0] == "in":
        return "byte %d" % k[1]
    return "%s" % (k,)


def valuation(m, limit=60):
    out = []
    for i, v in m.asg.items():
        out.append("%s = %s" % (keyname(m, i), v))
        if len(out) >= limit:
            break
    return out


def differ(m, a, b, w):
    """-> (where, a, b) of a difference, or None"""
    if a is b:
        return None
    if isinstance(a, A) and isinstance(b, A) and a.ty == b.ty and a.va == b.va and a.names == b.names:
        for n, x, y in zip(a.names, a.vals, b.vals):
            r = differ(m, x, y, w + "." + n)
            if r:
                return r
        return None
    if isinstance(a, (tuple, V)) and isinstance(b, (tuple, V)):
        if m.eq(a, b):
            return None
        ea, eb = m.elems(a), m.elems(b)
        for i in range(min(len(ea), len(eb))):
            if not m.eq(ea[i], eb[i]):
                return (w + "[%d]" % i, a, b)
        return (w + ".len", a, b)
    if m.eq(a, b):
        return None
    return (w, a, b)


class Result:
    def __init__(self):
        self.differing = self.stuck = 0
        self.stuckat = None
        self.samples = self.valid = self.agreed = self.nocode = self.ambiguous = 0
        self.gaveup = {}
        self.finding = None
        self.covered = set()


def repair(m, path, pins, rnd):
    """choose inputs to keep (into pins) after a failing fact, one of them moved so that the fact holds if possible"""
    for a, S in path[0]:
        n0 = len(m.asg)
        try:
            v = m.num(a, None)
        except (Invalid, GiveUp):
            return False
        if inS(v, S):
            continue
        c, d = lin_parts(a)
        ts = []
        for t, k in d.items():
            if k not in (1, -1):
                continue
            x = t
            while x.op == "trunc":
                x = x.a[1]
            if x in m.nodekey:
                ts.append((x, k))
        rnd.shuffle(ts)
        for t, k in ts:
            want = m.pick(S)
            nv = m.num(t, None) + (want - v) * k
            if not inS(nv, universe(t)) or t.op == "len" and nv > CAP:
                continue
            keep_all(m, pins)
            nk = m.nodekey[t]
            if isinstance(nk, tuple):
                for i in range(nk[2]):
                    pins[("in", nk[1] + i)] = (nv >> (8 * i)) & 255
            else:
                pins[m.keys[nk]] = nv
            return True
        # keep what was chosen before this fact was looked at
        mark = m.marks.get(a, 0)
        for i, (key, v) in enumerate(m.asg.items()):
            if i >= mark:
                break
            if rnd.random() < 0.9:
                pins[m.keys[key]] = v
        return True
    return False


def keep_all(m, pins):
    for i, v in m.asg.items():
        pins[m.keys[i]] = v


def compare(spec, code, seed=1, seconds=30, samples=6000, cuts=None, known=()):
    """search a valuation under which the two summaries give different outcomes"""
    R = Result()
    learn_adts()
    rnd = random.Random(seed)
    hints = gather_hints(spec + code)
    ck = {(p[0], p[1], p[2], tuple(p[3])) for p in code}
    sk = {(p[0], p[1], p[2], tuple(p[3])) for p in spec}
    td = [p for p in spec if (p[0], p[1], p[2], tuple(p[3])) not in ck] + [p for p in code if (p[0], p[1], p[2], tuple(p[3])) not in sk]
    R.differing = sum(p[1] != "panic" for p in td)
    td = [p for p in td if id(p) not in known]
    if not td:
        return R
    end = time.time() + seconds
    i = 0
    while i < samples and time.time() < end:
        tgt = td[i % len(td)]
        i += 1
        R.samples += 1
        pins = {}
        m = None
        for attempt in range(30):
            o, m = m, Model(rnd, hints, dict(tgt[0]), dict(pins))
            m.cuts = cuts
            if o is not None:
                # the pinned inputs are named by these numbers
                m.ids, m.keys = o.ids, o.keys
            st = one(m, spec, code, R, tgt)
            if st != "retry":
                break
            pins = {}
            if not repair(m, tgt, pins, rnd):
                break
        if st == "found":
            return R
    if R.stuck >= 30 and R.stuck >= (0.8 if R.agreed == 0 else 0.6) * R.valid:
        R.finding = Finding("outcome", "a result", "no result: an absent key is looked up, or an index is out of range", *R.stuckat)
    return R


def conclusive(R):
    return R.finding is not None or R.agreed >= 150 and len(R.covered) >= 0.95 * R.differing


def compare_more(spec, code, R, seed, seconds, workers, cuts=None, known=()):
    """repeat the search with other seeds in child processes, and add what they find to R"""
    if conclusive(R) or not R.differing or R.samples >= 6000:
        return
    kids = []
    for w in range(workers):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code_ = 0
            try:
                os.close(rd)
                signal.alarm(seconds + 60)
                q = compare(spec, code, seed=seed * 1000 + w + 1, seconds=seconds, cuts=cuts, known=known)
                if q.finding:
                    q.finding.facts = ()
                q.stuckat = None
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(q, f)
            except BaseException:
                code_ = 1
            os._exit(code_)
        os.close(wr)
        kids.append((pid, rd))
    for pid, rd in kids:
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            q = pickle.loads(data)
        except Exception:
            continue
        R.samples += q.samples
        R.valid += q.valid
        R.agreed += q.agreed
        R.nocode += q.nocode
        R.ambiguous += q.ambiguous
        R.stuck += q.stuck
        R.covered |= q.covered
        for k, n in q.gaveup.items():
            R.gaveup[k] = R.gaveup.get(k, 0) + n
        if q.finding and R.finding is None:
            R.finding = q.finding


def one(m, spec, code, R, tgt):
    try:
        if not m.facts(tgt[0], None):
            return "retry"
        s = pathof(m, spec)
        c = pathof(m, code)
        if s is None or c is None:
            R.nocode += 1
            return "none"
        if s == "many" or c == "many":
            R.ambiguous += 1
            return "none"
        R.valid += 1
        if tgt[1] != "panic":
            R.covered.add(id(tgt))
        if s[1] != c[1]:
            if s[1] == "panic":
                return "none"
            if m.unknown:
                return unknown(m, R)
            R.finding = Finding("outcome", s[1], c[1] + ("" if c[1] != "panic" else " (%s)" % (c[2].a[0],)), c[0], valuation(m))
            return "found"
        if s[1] == "panic":
            return "none"
        a = m.ev(s[2], None)
        for _, x in s[3]:
            m.ev(x, None)
        try:
            b = m.ev(c[2], None)
            for _, x in c[3]:
                m.ev(x, None)
        except Stuck:
            if not m.unknown:
                R.stuck += 1
                R.stuckat = R.stuckat or (c[0], valuation(m))
            return "stuck"
        fails = failed(a) and failed(b)
        r = None if fails and which_error(a) == which_error(b) is not None else differ(m, a, b, "return value")
        if r is None:
            ds, dc = dict(s[3]), dict(c[3])
            for nm in sorted(set(ds) | set(dc)):
                x, y = ds.get(nm), dc.get(nm)
                if x is None or y is None:
                    # unchanged on one side
                    z = [p for p in (x, y) if p is not None][0]
                    base = unchanged(m, z, nm)
                    if base is None:
                        continue
                    vx = m.ev(x, None) if x is not None else base
                    vy = m.ev(y, None) if y is not None else base
                else:
                    vx, vy = m.ev(x, None), m.ev(y, None)
                if fails and all(isinstance(q, A) and q.ty == "Out" for q in (vx, vy)):
                    # what was written before a failure is left open
                    continue
                r = differ(m, vx, vy, nm)
                if r:
                    break
        if r is None:
            R.agreed += 1
            return "agreed"
        if m.unknown:
            return unknown(m, R)
        R.finding = Finding(r[0], render(m, r[1]), render(m, r[2]), c[0], valuation(m))
        return "found"
    except Invalid:
        return "invalid"
    except GiveUp as e:
        R.gaveup[str(e)] = R.gaveup.get(str(e), 0) + 1
        return "gaveup"
    except RecursionError:
        R.gaveup["recursion"] = R.gaveup.get("recursion", 0) + 1
        return "gaveup"


def failed(v):
    return isinstance(v, A) and v.va == "Err"


def which_error(v):
    """the error of a dangling reference, whichever of several is reported"""
    e = v.vals[0] if v.vals else None
    if isinstance(e, A) and e.ty == "redscript_decompiler::error::Error" and e.va == "PoolError":
        return e.va
    return None


def unknown(m, R):
    for x in m.unknown:
        R.gaveup[x] = R.gaveup.get(x, 0) + 1
    return "unknown"


def unchanged(m, z, nm):
    if z.op == "agg" and z.a[0] == "Out":
        return A("Out", "", ("log", "pos"), ((), 0))
    if z.op == "agg" and z.a[0] == "In":
        return A("In", "", ("pos",), (0,))
    if z.op in ("seq", "str"):
        return None
    return O(m.key("arg", nm))


def pathof(m, paths):
    """the one path whose condition holds"""
    got = None
    for p in paths:
        try:
            ok = m.facts(p[0], None)
        except Invalid:
            ok = False
        if ok:
            if got is not None:
                return "many"
            got = p
    return got
