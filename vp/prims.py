"""Models of library functions used by the analysed code."""
import re

from .terms import *
from .engine import Bail, mkref, newcell, INT_TY

U64 = ("i", 8, False)


class Prims(dict):
    def __init__(self):
        super().__init__()
        self.rx = []
        self.cache = {}

    def match(self, name):
        if name in self.cache:
            return self.cache[name]
        r = None
        for rx, f in self.rx:
            if rx.search(name):
                r = f
                break
        self.cache[name] = r
        return r


P = Prims()


def prim(*names):
    def deco(f):
        for n in names:
            P[n] = f
        return f
    return deco


def primrx(*rxs):
    def deco(f):
        for r in rxs:
            P.rx.append((re.compile(r), f))
        return f
    return deco


def pure(fn):
    """wrap value-level function: args dereferenced"""
    def g(E, st, fr, f, av, line):
        return [(st, fn(E, st, f, *[E.deref(st, a) for a in av]))]
    return g


# ---------------------------------------------------------------- identities
def _identity(E, st, fr, f, av, line):
    return [(st, av[0])]


def _ident_val(E, st, fr, f, av, line):
    return [(st, E.deref(st, av[0]))]


for n in [
    "<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::rc::Rc<T, A> as std::ops::Deref>::deref",
    "<std::string::String as std::ops::Deref>::deref", "<std::boxed::Box<T, A> as std::ops::Deref>::deref",
    "<std::path::PathBuf as std::ops::Deref>::deref", "core::str::<impl str>::as_bytes", "std::string::String::as_bytes",
    "<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref", "<std::rc::Rc<T, A> as std::convert::AsRef<T>>::as_ref",
    "flexstr::impls::<impl std::convert::AsRef<str> for flexstr::FlexStr<SIZE, PAD1, PAD2, HEAP>>::as_ref",
    "<flexstr::FlexStr<SIZE, PAD1, PAD2, HEAP> as std::ops::Deref>::deref",
    "flexstr::FlexStr::<SIZE, PAD1, PAD2, HEAP>::as_str",
    "std::vec::Vec::<T, A>::as_slice", "std::string::String::as_str", "std::str::<impl std::borrow::ToOwned for str>::to_owned",
    "std::slice::<impl [T]>::to_vec", "std::path::Path::new", "std::string::String::into_bytes",
    "std::path::PathBuf::as_path", "std::path::Path::as_os_str",
    "std::string::String::into_boxed_str", "std::io::Cursor::<T>::get_mut_ident_unused",
    "std::vec::Vec::<T, A>::into_boxed_slice", "std::slice::<impl [T]>::into_vec",
    "flexstr::FlexStr::<SIZE, PAD1, PAD2, HEAP>::from_ref", "flexstr::FlexStr::<SIZE, PAD1, PAD2, HEAP>::from_static",
    "flexstr::FlexStr::<SIZE, PAD1, PAD2, HEAP>::from_heap", "flexstr::flex_fmt",
    "std::fmt::format", "vp_harness::model::vp_format", "std::hint::must_use",
    "<std::path::PathBuf as std::convert::From<std::string::String>>::from",
    "<std::rc::Rc<str> as std::convert::From<&str>>::from", "<std::rc::Rc<str> as std::convert::From<std::string::String>>::from",
    "std::boxed::convert::<impl std::convert::From<[T; N]> for std::boxed::Box<[T]>>::from",
    "std::boxed::convert::<impl std::convert::From<T> for std::boxed::Box<T>>::from",
    "std::boxed::Box::<T>::new", "std::rc::Rc::<T>::new", "std::boxed::box_assume_init_into_vec_unsafe",
    "<std::string::String as std::convert::From<&str>>::from", "<std::string::String as std::convert::AsRef<str>>::as_ref",
    "std::str::<impl std::convert::AsRef<[u8]> for str>::as_ref", "<std::boxed::Box<T> as std::convert::From<T>>::from",
    "std::path::<impl std::convert::AsRef<std::path::Path> for str>::as_ref",
    "<std::vec::Vec<T> as std::convert::From<&[T]>>::from", "<std::vec::Vec<T> as std::convert::From<[T; N]>>::from",
    "<std::string::String as std::borrow::Borrow<str>>::borrow", "std::slice::<impl [T]>::to_vec_in",
    "core::array::<impl [T; N]>::as_slice", "std::array::<impl [T; N]>::as_slice",
    "std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_deref", "std::option::Option::<&T>::cloned",
    "std::option::Option::<&T>::copied", "std::result::Result::<T, E>::as_ref", "std::result::Result::<&T, E>::cloned",
    "std::result::Result::<&T, E>::copied",
    "std::string::<impl std::convert::From<std::string::String> for std::rc::Rc<str>>::from",
    "std::vec::Vec::<T, A>::shrink_to_fit",
]:
    P[n] = _ident_val

for n in [
    "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut",
    "std::vec::Vec::<T, A>::as_mut_slice", "<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut",
    "<I as std::iter::IntoIterator>::into_iter", "std::iter::Iterator::by_ref",
    "<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut",
]:
    P[n] = _identity

primrx(r" as std::clone::Clone>::clone$", r"clone::impls::<impl std::clone::Clone", r"^std::clone::Clone::clone$",
       r" for &'?_? ?str>::to_string$", r"std::iter::Iterator::(cloned|copied)$",
       r"<std::iter::(Cloned|Copied)<.*>::new$",
       r"as std::convert::From<(&str|std::string::String|&std::string::String|std::boxed::Box<str>|&'a str)>>::from$")(_ident_val)


@prim("<T as std::string::ToString>::to_string")
def to_string(E, st, fr, f, av, line):
    v = E.deref(st, av[0])
    return [(st, mkseq((display_item(E, f[6][0], v, None, "d"),)))]


@primrx(r"^(std|core)::mem::(replace)$")
def mem_replace(E, st, fr, f, av, line):
    st = st.copy()
    old = E.deref(st, av[0])
    E.setref(st, av[0], av[1])
    return [(st, old)]


@prim("std::mem::swap")
def mem_swap(E, st, fr, f, av, line):
    st = st.copy()
    a, b = E.deref(st, av[0]), E.deref(st, av[1])
    E.setref(st, av[0], b)
    E.setref(st, av[1], a)
    return [(st, UNIT)]


# ---------------------------------------------------------------- panics
@primrx(r"^std::rt::(panic_fmt|begin_panic)", r"^core::panicking::", r"^std::panicking::", r"unwrap_failed$", r"expect_failed$",
        r"slice_index_fail", r"slice_(start|end)_index.*fail", r"^std::process::(exit|abort)$", r"panic_const", r"^std::slice::index::slice_")
def panic(E, st, fr, f, av, line):
    name = f[3]
    kind = "panic"
    if "unwrap_failed" in name or "expect_failed" in name:
        kind = "unwrap"
    elif "index" in name:
        kind = "bounds"
    E.panic(st, kind, fr, line, None)
    return []


# ---------------------------------------------------------------- sequences
def seqval(E, st, v):
    return E.deref(st, v)


@prim("std::vec::Vec::<T>::new", "std::string::String::new", "std::string::String::with_capacity", "std::vec::Vec::<T>::with_capacity",
      "<std::vec::Vec<T> as std::default::Default>::default", "<std::string::String as std::default::Default>::default",
      "core::slice::<impl std::default::Default for &[T]>::default", "std::path::PathBuf::new",
      "<std::boxed::Box<[T]> as std::default::Default>::default", "std::collections::VecDeque::<T>::new")
def vec_new(E, st, fr, f, av, line):
    return [(st, EMPTY)]


@prim("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back")
def vec_push(E, st, fr, f, av, line):
    st = st.copy()
    s = E.deref(st, av[0])
    E.setref(st, av[0], mkseq(items_of(s) + (mk("el", av[1]),)))
    return [(st, UNIT)]


@prim("<std::string::String as std::ops::Add<&str>>::add")
def str_add(E, st, fr, f, av, line):
    return [(st, concat(av[0], E.deref(st, av[1])))]


@prim("std::string::String::push_str", "std::vec::Vec::<T, A>::extend_from_slice", "<std::string::String as std::ops::AddAssign<&str>>::add_assign")
def push_str(E, st, fr, f, av, line):
    st = st.copy()
    s = E.deref(st, av[0])
    E.setref(st, av[0], concat(s, E.deref(st, av[1])))
    return [(st, UNIT)]


@prim("std::string::String::push")
def str_push(E, st, fr, f, av, line):
    st = st.copy()
    s = E.deref(st, av[0])
    c = av[1]
    it = mk("lit", chr(c.a[0])) if c.op == "int" else mk("ch", c)
    E.setref(st, av[0], mkseq(items_of(s) + (it,)))
    return [(st, UNIT)]


@prim("std::collections::VecDeque::<T, A>::pop_front")
def deque_pop_front(E, st, fr, f, av, line):
    s = E.deref(st, av[0])
    n = seqlen(s)
    t, e = E.branch(st, mkin(n, iv(1, INF)))
    out = []
    for s2 in t:
        s2 = s2.copy()
        first = idx(s, I(0), elty(E, f))
        E.setref(s2, av[0], mkslice(s, I(1), n))
        out.append((s2, E.some(first)))
    for s2 in e:
        out.append((s2, E.NONE))
    return out


@prim("bpaf::vp_tree")
def bpaf_tree(E, st, fr, f, av, line):
    return [(st, E.deref(st, av[0]))]


@prim("bpaf::vp_run")
def bpaf_run(E, st, fr, f, av, line):
    return [(st, mk("ext", "bpaf::run", (E.freeze(st, av[0]), E.freeze(st, av[1]))))]


@prim("bpaf::vp_syms")
def bpaf_syms(E, st, fr, f, av, line):
    return [(st, typed(mk("arg", "values<%s>" % E.p.tname(f[6][0]), E.p.tname(f[6][0])), None))]


@prim("std::vec::Vec::<T, A>::pop", "std::collections::VecDeque::<T, A>::pop_back")
def vec_pop(E, st, fr, f, av, line):
    s = E.deref(st, av[0])
    its = items_of(s)
    if its and its[-1].op == "el":
        st = st.copy()
        E.setref(st, av[0], mkseq(its[:-1]))
        return [(st, E.some(its[-1].a[0]))]
    n = seqlen(s)
    t, e = E.branch(st, mkin(n, iv(1, INF)))
    out = []
    for s2 in t:
        s2 = s2.copy()
        last = idx(s, sub(n, I(1)), elty(E, f))
        E.setref(s2, av[0], mkslice(s, I(0), sub(n, I(1))))
        out.append((s2, E.some(last)))
    return out + [(s2, E.NONE) for s2 in e]


def elty(E, f):
    t = [x for x in f[6] if isinstance(x, int)]
    return E.p.vty(t[0]) if t else None


@prim("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "std::string::String::len", "core::str::<impl str>::len",
      "std::collections::VecDeque::<T, A>::len")
@pure
def vlen(E, st, f, s):
    return seqlen(s)


@prim("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty", "std::string::String::is_empty")
@pure
def vempty(E, st, f, s):
    return cmp_eq(seqlen(s), I(0))


@prim("std::vec::from_elem")
def from_elem(E, st, fr, f, av, line):
    n = av[1]
    if n.op == "int" and n.a[0] <= 64:
        return [(st, mkseq(tuple(mk("el", av[0]) for _ in range(n.a[0]))))]
    return [(st, mk("fill", av[0], n))]


def is_range(v):
    return v.op == "agg" and v.a[0].startswith("std::ops::Range")


def range_bounds(E, st, v, n):
    nm = v.a[0].split("::")[-1]
    if nm == "RangeFull":
        return I(0), n
    if nm == "Range":
        return fld(v, "", "start"), fld(v, "", "end")
    if nm == "RangeFrom":
        return fld(v, "", "start"), n
    if nm == "RangeTo":
        return I(0), fld(v, "", "end")
    if nm == "RangeToInclusive":
        return I(0), add(fld(v, "", "end"), I(1))
    if nm == "RangeInclusive":
        return fld(v, "", "start"), add(fld(v, "", "end"), I(1))
    raise Bail("range " + nm)


def index_type(E, f):
    for t in f[6]:
        if isinstance(t, int):
            d = E.p.d(t)
            if d[0] == "adt" and d[1].startswith("std::ops::Range"):
                return t
    return None


def as_range(E, f, v):
    """range values whose struct was erased to its single field"""
    if v.op == "agg" and v.a[0].startswith("std::ops::Range"):
        return v
    t = None
    for x in f[6]:
        if isinstance(x, int):
            d = E.p.d(x)
            if d[0] == "adt" and d[1].startswith("std::ops::Range"):
                t = d
    if t is None:
        return None
    nm = t[1].split("::")[-1]
    if nm in ("RangeFrom", "RangeTo", "RangeToInclusive"):
        fn = "start" if nm == "RangeFrom" else "end"
        return mk("agg", t[1], "", (fn,), (v,))
    if nm == "RangeFull":
        return mk("agg", t[1], "", (), ())
    return mk("agg", t[1], "", tuple(sorted(x for x, _ in t[4][0][2])), tuple(fld(v, "", x) for x in sorted(x for x, _ in t[4][0][2])))


@prim("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "core::str::<impl str>::get")
def slice_get(E, st, fr, f, av, line):
    s = E.deref(st, av[0])
    n = seqlen(s)
    rv = as_range(E, f, av[1])
    mutable = f[3].endswith("get_mut")
    if rv is not None:
        lo, hi = range_bounds(E, st, rv, n)
        out = []
        good = band(neg(cmp_lt(hi, lo)), neg(cmp_lt(n, hi)))
        t, e = E.branch(st, good)
        for s2 in t:
            out.append((s2, E.some(sliceref(E, s2, av[0], s, lo, hi, mutable))))
        return out + [(s2, E.NONE) for s2 in e]
    i = av[1]
    t, e = E.branch(st, cmp_lt(i, n))
    out = []
    for s2 in t:
        if mutable:
            v = elemref(E, s2, av[0], i, elty(E, f))
        else:
            v = idx(s, i, elty(E, f))
        out.append((s2, E.some(v)))
    return out + [(s2, E.NONE) for s2 in e]


def locof(E, st, r):
    """collapse ref-to-ref chains to the final location"""
    while True:
        v = E.load(st, r.a[0], r.a[1])
        if v.op == "ref":
            r = v
            continue
        return r


def elemref(E, st, r, i, ty):
    if r.op != "ref":
        return idx(r, i, ty)
    r = locof(E, st, r)
    return mkref(r.a[0], r.a[1] + (("i", i, ty),))


def sliceref(E, st, r, s, lo, hi, mutable):
    if not mutable or r.op != "ref":
        return mkslice(s, lo, hi)
    r = locof(E, st, r)
    if lo is I(0) and hi is seqlen(s):
        return r
    return mkref(r.a[0], r.a[1] + (("s", lo, hi),))


@primrx(r"as std::ops::Index(Mut)?<I>>::index(_mut)?$", r"<impl std::ops::Index(Mut)?<I> for \[T(; N)?\]>::index(_mut)?$",
        r"<impl std::ops::Index(Mut)?<I> for str>::index(_mut)?$", r"<std::string::String as std::ops::Index<I>>::index")
def index(E, st, fr, f, av, line):
    if "HashMap" in f[3] or "BTreeMap" in f[3]:
        return None
    mutable = f[3].endswith("_mut")
    s = E.deref(st, av[0])
    n = seqlen(s)
    rv = as_range(E, f, av[1])
    if rv is not None:
        lo, hi = range_bounds(E, st, rv, n)
        good = band(neg(cmp_lt(hi, lo)), neg(cmp_lt(n, hi)))
        t, e = E.branch(st, good)
        for s2 in e:
            E.panic(s2, "bounds", fr, line)
        return [(s2, sliceref(E, s2, av[0], s, lo, hi, mutable)) for s2 in t]
    i = av[1]
    t, e = E.branch(st, cmp_lt(i, n))
    for s2 in e:
        E.panic(s2, "bounds", fr, line)
    ty = elty(E, f)
    return [(s2, elemref(E, s2, av[0], i, ty) if mutable else idx(s, i, ty)) for s2 in t]


@prim("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut", "core::slice::<impl [T]>::first_mut")
def first_last(E, st, fr, f, av, line):
    s = E.deref(st, av[0])
    n = seqlen(s)
    t, e = E.branch(st, mkin(n, iv(1, INF)))
    mutable = f[3].endswith("_mut")
    i = I(0) if "first" in f[3] else sub(n, I(1))
    out = []
    its = items_of(s)
    for s2 in t:
        if mutable:
            v = elemref(E, s2, av[0], i, elty(E, f))
        elif "last" in f[3] and its and its[-1].op == "el":
            v = its[-1].a[0]
        else:
            v = idx(s, i, elty(E, f))
        out.append((s2, E.some(v)))
    return out + [(s2, E.NONE) for s2 in e]


@prim("core::slice::<impl [T]>::swap")
def slice_swap(E, st, fr, f, av, line):
    st0 = st
    s = E.deref(st, av[0])
    n = seqlen(s)
    good = band(cmp_lt(av[1], n), cmp_lt(av[2], n))
    t, e = E.branch(st, good)
    for s2 in e:
        E.panic(s2, "bounds", fr, line)
    out = []
    for s2 in t:
        s2 = s2.copy()
        a, b = idx(s, av[1]), idx(s, av[2])
        E.setref(s2, av[0], mk("upd", mk("upd", s, av[1], b), av[2], a))
        out.append((s2, UNIT))
    return out


# slice iterators:  agg SliceIter{back,front,seq} ; mutable: SliceIterMut{back,front,seq(ref)}
def mkiter(seq, front, back, mutable=False):
    return mk("agg", "SliceIterMut" if mutable else "SliceIter", "", ("back", "front", "seq"), (back, front, seq))


@prim("core::slice::<impl [T]>::iter", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
      "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
      "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter",
      "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter",
      "std::boxed::iter::<impl std::iter::IntoIterator for &'a std::boxed::Box<[I], A>>::into_iter",
      "std::boxed::iter::<impl std::iter::IntoIterator for std::boxed::Box<[I], A>>::into_iter",
      "core::str::<impl str>::bytes", "std::collections::VecDeque::<T, A>::iter",
      "<std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter", "<&'a std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter")
def slice_iter(E, st, fr, f, av, line):
    s = E.deref(st, av[0])
    return [(st, mkiter(s, I(0), seqlen(s)))]


@prim("core::slice::<impl [T]>::iter_mut", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
      "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter")
def slice_iter_mut(E, st, fr, f, av, line):
    s = E.deref(st, av[0])
    if av[0].op != "ref":
        return [(st, mkiter(s, I(0), seqlen(s)))]
    return [(st, mkiter(locof(E, st, av[0]), I(0), seqlen(s), True))]


def iter_step(E, st, fr, f, av, back_end):
    it = E.deref(st, av[0])
    if it.op != "agg" or it.a[0] not in ("SliceIter", "SliceIterMut"):
        # symbolic iterator
        return None
    back, front, seq = it.a[3]
    t, e = E.branch(st, mkin(sub(back, front), iv(1, INF)))
    out = []
    ty = elty(E, f)
    for s2 in t:
        s2 = s2.copy()
        i = sub(back, I(1)) if back_end else front
        if it.a[0] == "SliceIterMut":
            v = mkref(seq.a[0], seq.a[1] + (("i", i, ty),))
        else:
            v = idx(seq, i, ty)
        if back_end:
            E.setref(s2, av[0], mk("agg", it.a[0], "", it.a[2], (i, front, seq)))
        else:
            E.setref(s2, av[0], mk("agg", it.a[0], "", it.a[2], (back, add(front, I(1)), seq)))
        out.append((s2, E.some(v)))
    for s2 in e:
        out.append((s2, E.NONE))
    return out


@primrx(r"^<std::slice::Iter(Mut)?<.*> as std::iter::Iterator>::next$", r"^<std::vec::IntoIter<.*> as std::iter::Iterator>::next$",
        r"^<std::array::IntoIter<.*> as std::iter::Iterator>::next$", r"^<core::array::iter::IntoIter<.*> as std::iter::Iterator>::next$",
        r"^<std::str::Bytes<.*> as std::iter::Iterator>::next$", r"^<hashbrown::(map|set)::Iter<.*> as std::iter::Iterator>::next$",
        r"^<std::collections::btree_map::(Into)?Iter<.*> as std::iter::Iterator>::next$",
        r"^<std::str::Split<.*> as std::iter::Iterator>::next$", r"^<std::str::SplitN<.*> as std::iter::Iterator>::next$",
        r"^<std::str::(SplitWhitespace|SplitAsciiWhitespace|SplitTerminator|SplitInclusive|Lines)<.*> as std::iter::Iterator>::next$",
        r"^<std::str::Chars<.*> as std::iter::Iterator>::next$", r"^<std::collections::vec_deque::(Into)?Iter<.*> as std::iter::Iterator>::next$")
def iter_next(E, st, fr, f, av, line):
    return iter_step(E, st, fr, f, av, False)


@primrx(r"^<std::slice::Iter(Mut)?<.*> as std::iter::DoubleEndedIterator>::next_back$", r"^<std::vec::IntoIter<.*> as std::iter::DoubleEndedIterator>::next_back$")
def iter_next_back(E, st, fr, f, av, line):
    return iter_step(E, st, fr, f, av, True)


@primrx(r"ExactSizeIterator>::len$", r"^<std::slice::Iter(Mut)?<.*> as std::iter::Iterator>::(count|size_hint)$")
def iter_len(E, st, fr, f, av, line):
    it = E.deref(st, av[0])
    if it.op == "agg" and it.a[0].startswith("SliceIter"):
        return [(st, sub(it.a[3][0], it.a[3][1]))]
    return None


def advance(E, it, n):
    if it.op == "agg":
        if it.a[0] in ("SliceIter", "SliceIterMut"):
            back, front, seq = it.a[3]
            return mk("agg", it.a[0], "", it.a[2], (back, add(front, n), seq))
        nm = it.a[0].split("::")[-1]
        if nm == "Enumerate":
            d = dict(zip(it.a[2], it.a[3]))
            d["iter"] = advance(E, d["iter"], n)
            d["count"] = add(d["count"], n)
            return mk("agg", it.a[0], "", it.a[2], tuple(d[x] for x in it.a[2]))
        if nm in ("Map", "Skip", "Cloned", "Copied"):
            d = dict(zip(it.a[2], it.a[3]))
            key = "iter" if "iter" in d else "it"
            d[key] = advance(E, d[key], n)
            return mk("agg", it.a[0], "", it.a[2], tuple(d[x] for x in it.a[2]))
        if nm == "Range":
            return mk("agg", it.a[0], "", it.a[2], (fld(it, "", "end"), add(fld(it, "", "start"), n)))
    raise Bail("skip on " + show(it)[:60])


@prim("vp_harness::model::vp_advance")
def vp_advance(E, st, fr, f, av, line):
    st = st.copy()
    E.setref(st, av[0], advance(E, E.deref(st, av[0]), av[1]))
    return [(st, UNIT)]


@prim("vp_harness::model::vp_skip")
def vp_skip(E, st, fr, f, av, line):
    return [(st, mk("agg", "std::iter::Skip", "", ("iter", "n"), (av[0], I(0))))]


@prim("vp_harness::model::vp_chain")
def vp_chain(E, st, fr, f, av, line):
    v = E.deref(st, av[0])
    return [(st, mkiter(v, I(0), seqlen(v)))]


@prim("vp_harness::model::chain")
def chain(E, st, fr, f, av, line):
    a, b = E.deref(st, av[0]), E.deref(st, av[1])

    def asiter(v, t):
        if v.op == "agg" and v.a[0] == "SliceIter":
            return v
        if v.op == "agg" and v.a[0] == "std::iter::Chain" and False:
            return None
        d = E.p.d(t)
        if d[0] == "adt" and d[1] in ("std::vec::Vec",) or d[0] in ("slice", "array") or (d[0] == "ref" and E.p.d(E.p.peel(t))[0] in ("slice", "array", "adt") and v.op != "agg"):
            return mkiter(v, I(0), seqlen(v))
        return None

    ia, ib = asiter(a, f[6][0]), asiter(b, f[6][1])
    if ia is None or ib is None:
        return None
    sa = mkslice(ia.a[3][2], ia.a[3][1], ia.a[3][0])
    sb = mkslice(ib.a[3][2], ib.a[3][1], ib.a[3][0])
    s = concat(sa, sb)
    return [(st, mkiter(s, I(0), seqlen(s)))]


@primrx(r"^<std::iter::Chain<.*> as std::iter::Iterator>::next$")
def chain_next(E, st, fr, f, av, line):
    return iter_step(E, st, fr, ["", "", "", "", "", "", []], av, False)


@prim("std::iter::once")
def once(E, st, fr, f, av, line):
    s = mkseq((mk("el", av[0]),))
    return [(st, mkiter(s, I(0), I(1)))]


@primrx(r"^<std::iter::Once<.*> as std::iter::Iterator>::next$")
def once_next(E, st, fr, f, av, line):
    return iter_step(E, st, fr, ["", "", "", "", "", "", []], av, False)


@primrx(r"std::iter::Step>::(forward_unchecked|forward|forward_overflowing)$")
def step_forward(E, st, fr, f, av, line):
    return [(st, add(E.deref(st, av[0]), av[1]))]


@primrx(r"std::iter::Step>::(backward_unchecked|backward)$")
def step_backward(E, st, fr, f, av, line):
    return [(st, sub(E.deref(st, av[0]), av[1]))]


@primrx(r"^std::slice::<impl \[T\]>::sort(_unstable)?(_by_key)?$", r"^core::slice::<impl \[T\]>::sort_unstable_by_key$")
def sort_by_key(E, st, fr, f, av, line):
    st = st.copy()
    s = E.deref(st, av[0])
    key = mk("self")
    if "by_key" in f[3]:
        bv = mk("bound")
        rs = E.call_value(st, fr, av[1], [bv], line)
        if len(rs) != 1:
            key = mk("opaque", "key")
        else:
            key = E.freeze(rs[0][0], rs[0][1])
    E.setref(st, av[0], mk("sorted", s, key))
    return [(st, UNIT)]


# ---------------------------------------------------------------- bytes / io
def tyname(E, t):
    return E.p.tname(t)


@prim("vp_harness::model::vp_from_bytes")
def vp_from_bytes(E, st, fr, f, av, line):
    T, X, N = f[6][0], f[6][1], int(f[6][2])
    return [(st, from_bytes(E, av[0], X, N, "BigEndian" in tyname(E, T)))]


def from_bytes(E, b, X, N, be):
    nm, vt = tyname(E, X), E.p.vty(X)
    if b.op == "bytes":
        if N == 1:
            be = False
        return typed(mk("rdbe" if be else "rd", nm, b.a[0], b.a[1]), vt)
    if b.op == "seq" and len(b.a[0]) == 1 and b.a[0][0].op == ("be" if be else "le") and b.a[0][0].a[0] == N:
        return b.a[0][0].a[1]
    if b.op == "seq" and N == 1 and len(b.a[0]) == 1 and b.a[0][0].op == "el":
        return b.a[0][0].a[0]
    if b.op == "seq" and all(i.op == "el" and i.a[0].op == "int" for i in b.a[0]) and vt and vt[0] == "i":
        bs = bytes(i.a[0].a[0] for i in b.a[0])
        return I(int.from_bytes(bs, "big" if be else "little", signed=vt[2]))
    return typed(mk("frombytes", nm, "be" if be else "le", b), vt)


def to_bytes(x, N, be):
    if N == 1:
        return mkseq((mk("el", x),))
    if x.op == "int" and False:
        pass
    return mkseq((mk("be" if be else "le", N, x),))


@prim("vp_harness::model::vp_to_bytes")
def vp_to_bytes(E, st, fr, f, av, line):
    T, X, N = f[6][0], f[6][1], int(f[6][2])
    return [(st, to_bytes(av[0], N, "BigEndian" in tyname(E, T)))]


@primrx(r"num::<impl (u|i|f)\d+>::to_(le|be|ne)_bytes$", r"f(32|64)::<impl f(32|64)>::to_(le|be|ne)_bytes$")
def to_le(E, st, fr, f, av, line):
    m = re.search(r"<impl (\w)(\d+)>::to_(le|be|ne)_bytes", f[3])
    return [(st, to_bytes(E.deref(st, av[0]), int(m.group(2)) // 8, m.group(3) == "be"))]


@primrx(r"num::<impl (u|i|f)\d+>::from_(le|be|ne)_bytes$", r"f(32|64)::<impl f(32|64)>::from_(le|be|ne)_bytes$")
def from_le(E, st, fr, f, av, line):
    m = re.search(r"<impl (\w)(\d+)>::from_(le|be|ne)_bytes", f[3])
    nm = m.group(1) + m.group(2)
    for t, r in E.p.tys.items():
        if r[2] == nm:
            return [(st, from_bytes(E, E.deref(st, av[0]), t, int(m.group(2)) // 8, m.group(3) == "be"))]
    return None


def in_model(E, fr, what):
    for k in reversed(fr.stack[-4:]):
        if E.p.fns[k][3] == "vp_harness::model::" + what:
            return True
    # user wrappers (StreamOffset) sit between the model and the stream
    for k in reversed(fr.stack):
        n = E.p.fns[k][3]
        if n == "vp_harness::model::" + what:
            return True
    return False


@prim("<In as std::io::Read>::read", "<vp_harness::In as std::io::Read>::read")
def in_read(E, st, fr, f, av, line):
    s = E.deref(st, av[0])
    pos = fld(s, "", "pos")
    buf = E.deref(st, av[1])
    n = seqlen(buf)
    out = st.copy()
    if not in_model(E, fr, "read_exact"):
        m = typed(mk("shortread", s, n), U64)
        E.setref(out, av[1], mk("partialread", s, n))
        E.setref(out, av[0], mk("agg", "In", "", ("pos",), (add(pos, m),)))
        return [(out, E.ok(m))] + E.io_fail(st)
    E.setref(out, av[1], mk("bytes", mk("input"), pos, n))
    E.setref(out, av[0], mk("agg", "In", "", ("pos",), (add(pos, n),)))
    return [(out, E.ok(n))] + E.io_fail(st)


@prim("<In as std::io::Seek>::seek", "<vp_harness::In as std::io::Seek>::seek")
def in_seek(E, st, fr, f, av, line):
    s = E.deref(st, av[0])
    pos = fld(s, "", "pos")
    w = av[1]
    out = st.copy()
    if w.op != "agg":
        return None
    if w.a[1] == "Start":
        p = w.a[3][0]
    elif w.a[1] == "Current":
        p = add(pos, w.a[3][0])
    else:
        p = add(mk("insize"), w.a[3][0])
    E.setref(out, av[0], mk("agg", "In", "", ("pos",), (p,)))
    return [(out, E.ok(p))] + E.io_fail(st)


def out_append(E, st, ref, items):
    s = E.deref(st, ref)
    log, pos = fld(s, "", "log"), fld(s, "", "pos")
    n = I(0)
    for i in items:
        n = add(n, item_len(i))
    E.setref(st, ref, mk("agg", "Out", "", ("log", "pos"), (mkseq(items_of(log) + tuple(items)), add(pos, n))))
    return n


@prim("<Out as std::io::Write>::write", "<vp_harness::Out as std::io::Write>::write")
def out_write(E, st, fr, f, av, line):
    out = st.copy()
    buf = E.deref(out, av[1])
    n = out_append(E, out, av[0], items_of(buf))
    if not in_model(E, fr, "write_all"):
        n = typed(mk("shortwrite", n), U64)
    return [(out, E.ok(n))] + E.io_fail(st)


@prim("<Out as std::io::Write>::flush", "<vp_harness::Out as std::io::Write>::flush")
def out_flush(E, st, fr, f, av, line):
    out = st.copy()
    s = E.deref(out, av[0])
    log, pos = fld(s, "", "log"), fld(s, "", "pos")
    E.setref(out, av[0], mk("agg", "Out", "", ("log", "pos"), (mkseq(items_of(log) + (mk("flush"),)), pos)))
    return [(out, E.ok(UNIT))] + E.io_fail(st)


@prim("<Out as std::io::Seek>::seek", "<vp_harness::Out as std::io::Seek>::seek")
def out_seek(E, st, fr, f, av, line):
    s = E.deref(st, av[0])
    log, pos = fld(s, "", "log"), fld(s, "", "pos")
    w = E.deref(st, av[1])
    out = st.copy()
    if w.op != "agg":
        return None
    if w.a[1] == "Start":
        p = w.a[3][0]
    elif w.a[1] == "Current":
        p = add(pos, w.a[3][0])
    else:
        p = add(mk("outsize", log), w.a[3][0])
    if p is not pos:
        log = mkseq(items_of(log) + (mk("seek", p),))
    E.setref(out, av[0], mk("agg", "Out", "", ("log", "pos"), (log, p)))
    return [(out, E.ok(p))] + E.io_fail(st)


# Cursor
def mkcur(inner, pos):
    return mk("agg", "std::io::Cursor", "", ("inner", "pos"), (inner, pos))


@prim("std::io::Cursor::<T>::new")
def cur_new(E, st, fr, f, av, line):
    return [(st, mkcur(av[0], I(0)))]


@prim("std::io::Cursor::<T>::get_ref", "std::io::Cursor::<T>::into_inner")
@pure
def cur_get(E, st, f, c):
    return fld(c, "", "inner")


@prim("std::io::Cursor::<T>::position")
@pure
def cur_pos(E, st, f, c):
    return fld(c, "", "pos")


@prim("std::io::Cursor::<T>::set_position")
def cur_setpos(E, st, fr, f, av, line):
    st = st.copy()
    c = E.deref(st, av[0])
    E.setref(st, av[0], mkcur(fld(c, "", "inner"), av[1]))
    return [(st, UNIT)]


@primrx(r"^<std::io::Cursor<.*> as std::io::Seek>::seek$")
def cur_seek(E, st, fr, f, av, line):
    st2 = st.copy()
    c = E.deref(st, av[0])
    w = av[1]
    if w.op != "agg":
        return None
    inner, pos = fld(c, "", "inner"), fld(c, "", "pos")
    iv_ = E.deref(st, inner)
    if w.a[1] == "Start":
        p = w.a[3][0]
    elif w.a[1] == "Current":
        p = add(pos, w.a[3][0])
    else:
        p = add(seqlen(iv_), w.a[3][0])
    E.setref(st2, av[0], mkcur(inner, p))
    return [(st2, E.ok(p))] + E.io_fail(st)


@primrx(r"<impl std::io::Read for std::io::Cursor<T>>::read$", r"^<std::io::Cursor<.*> as std::io::Read>::read$")
def cur_read(E, st, fr, f, av, line):
    out = st.copy()
    c = E.deref(st, av[0])
    inner, pos = fld(c, "", "inner"), fld(c, "", "pos")
    src = E.deref(st, inner)
    n = seqlen(E.deref(st, av[1]))
    if not in_model(E, fr, "read_exact"):
        m = typed(mk("shortread", c, n), U64)
        E.setref(out, av[1], mk("partialread", c, n))
        E.setref(out, av[0], mkcur(inner, add(pos, m)))
        return [(out, E.ok(m))] + E.io_fail(st)
    E.setref(out, av[1], mk("bytes", src, pos, n))
    E.setref(out, av[0], mkcur(inner, add(pos, n)))
    return [(out, E.ok(n))] + E.io_fail(st)


@primrx(r"^<std::io::Cursor<.*> as std::io::Write>::write$", r"<impl std::io::Write for std::io::Cursor<.*>::write$")
def cur_write(E, st, fr, f, av, line):
    out = st.copy()
    c = E.deref(st, av[0])
    inner, pos = fld(c, "", "inner"), fld(c, "", "pos")
    buf = E.deref(st, av[1])
    cur = E.deref(st, inner)
    if pos is seqlen(cur):
        new = concat(cur, buf)
    else:
        new = mk("overwrite", cur, pos, buf)
    if inner.op == "ref":
        E.setref(out, inner, new)
        newinner = inner
    else:
        newinner = new
    n = seqlen(buf)
    E.setref(out, av[0], mkcur(newinner, add(pos, n)))
    return [(out, E.ok(n))] + E.io_fail(st)


@prim("<std::vec::Vec<u8, A> as std::io::Write>::write", "std::io::impls::<impl std::io::Write for std::vec::Vec<u8, A>>::write",
      "alloc::io::impls::<impl std::io::Write for std::vec::Vec<u8, A>>::write")
def vec_write(E, st, fr, f, av, line):
    out = st.copy()
    buf = E.deref(st, av[1])
    E.setref(out, av[0], concat(E.deref(st, av[0]), buf))
    return [(out, E.ok(seqlen(buf)))] + E.io_fail(st)


@primrx(r"<impl std::io::Error>::(new|other)$", r"^std::io::Error::(new|other)$")
def io_error(E, st, fr, f, av, line):
    return [(st, mk("ioerror", av[0] if f[3].endswith("new") else mk("other")))]


@prim("crc32fast::hash")
@pure
def crc(E, st, f, s):
    return typed(mk("crc32", s), ("i", 4, False))


@prim("std::string::String::from_utf8", "std::str::from_utf8", "core::str::from_utf8")
def from_utf8(E, st, fr, f, av, line):
    s = E.deref(st, av[0])
    t, e = E.branch(st, typed(mk("utf8", s), "bool"))
    return [(x, E.ok(s)) for x in t] + [(x, E.er(mk("utf8err", s))) for x in e]


# ---------------------------------------------------------------- strings
def strhash(s):
    import hashlib
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=10).digest(), "big")


def streq(a, b):
    if a is b:
        return TRUE
    if a.op == "seq" and a.a[0] == ():
        a = mk("str", "")
    if b.op == "seq" and b.a[0] == ():
        b = mk("str", "")
    if a.op == "str" and b.op == "str":
        return TRUE if a.a[0] == b.a[0] else FALSE
    if b.op == "str":
        a, b = b, a
    if a.op == "str":
        if a.a[0] == "":
            return cmp_eq(seqlen(b), I(0))
        h = strhash(a.a[0])
        STRS[h] = a.a[0]
        return mkin(mk("strid", b), ((h, h),))
    x, y = sorted((a, b), key=dig)
    return typed(mk("streq", x, y), "bool")


STRS = {}
REBUILD["streq"] = lambda a, b: streq(a, b)


@primrx(r"<impl std::cmp::PartialEq(<.*>)? for str>::eq$", r"^<std::string::String as std::cmp::PartialEq(<.*>)?>::eq$",
        r"std::cmp::PartialEq<(str|&'a str|&str|std::string::String)>( for .*)?>::eq$",
        r"^<std::rc::Rc<.*> as std::cmp::PartialEq>::eq$", r"FlexStr<.*PartialEq.*::eq$", r"std::cmp::PartialEq<flexstr::FlexStr.*::eq$")
def str_eq(E, st, fr, f, av, line):
    a, b = E.deref(st, av[0]), E.deref(st, av[1])
    return [(st, streq(a, b))]


@primrx(r"<impl std::cmp::PartialEq(<.*>)? for str>::ne$", r"std::cmp::PartialEq<(str|&'a str|&str|std::string::String)>( for .*)?>::ne$")
def str_ne(E, st, fr, f, av, line):
    a, b = E.deref(st, av[0]), E.deref(st, av[1])
    return [(st, neg(streq(a, b)))]


@prim("<std::boxed::Box<T, A> as std::cmp::PartialEq>::eq", "std::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq",
      "<std::vec::Vec<T, A1> as std::cmp::PartialEq<std::vec::Vec<U, A2>>>::eq", "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq")
def gen_eq(E, st, fr, f, av, line):
    a, b = E.freeze(st, av[0]), E.freeze(st, av[1])
    if a is b:
        return [(st, TRUE)]
    x, y = sorted((a, b), key=dig)
    return [(st, typed(mk("equal", x, y), "bool"))]


@prim("core::str::<impl str>::split", "core::str::<impl str>::chars", "core::str::<impl str>::splitn", "core::str::<impl str>::lines",
      "core::str::<impl str>::split_whitespace", "core::str::<impl str>::split_ascii_whitespace",
      "core::str::<impl str>::split_terminator", "core::str::<impl str>::split_inclusive")
def split(E, st, fr, f, av, line):
    s = mk(f[3].split("::")[-1], *[E.deref(st, a) for a in av])
    return [(st, mkiter(s, I(0), seqlen(s)))]


# ---------------------------------------------------------------- maps
MAP0 = mk("map0")


def mkmap(base, items):
    return mk("agg", "Map", "", ("base", "items"), (base, items))


def asmap(v):
    if v.op == "agg" and v.a[0] == "Map":
        return v
    return mkmap(v, EMPTY)


def mapterm(m):
    b, it = m.a[3]
    if it is EMPTY:
        return b
    return mk("mapof", b, it)


primname = (r"^(hashbrown::(map::HashMap|set::HashSet)|std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)"
            r"|std::collections::hash::(map::HashMap|set::HashSet))::<.*>::")


@primrx(primname + r"(new|with_capacity)$", r"^<(hashbrown|std::collections).*(Map|Set).* as std::default::Default>::default$")
def map_new(E, st, fr, f, av, line):
    return [(st, mkmap(MAP0, EMPTY))]


def distinct(a, b):
    if a.op == "int" and b.op == "int" or a.op == "str" and b.op == "str":
        return a is not b
    d = sub(a, b) if a.op in ("int", "lin") or b.op in ("int", "lin") else None
    return d is not None and d.op == "int" and d.a[0] != 0


def lookup(E, st, m, key):
    """-> list (st, value or None)"""
    m = asmap(m)
    base, items = m.a[3]
    its = list(items_of(items))
    while its and its[-1].op == "ins":
        kk, v = its[-1].a
        if kk is key:
            return [(st, v)]
        if distinct(kk, key):
            its.pop()
            continue
        break
    if not its and base is MAP0:
        return [(st, None)]
    mt = mapterm(mkmap(base, mkseq(tuple(its))))
    t, e = E.branch(st, typed(mk("has", mt, key), "bool"))
    return [(s, typed(mk("mapget", mt, key), None)) for s in t] + [(s, None) for s in e]


@primrx(r"^<(hashbrown|std::collections).*(Map)<.*> as std::ops::Index<.*>>::index$")
def map_index(E, st, fr, f, av, line):
    m = E.deref(st, av[0])
    key = E.freeze(st, av[1])
    ts = [t for t in f[6] if isinstance(t, int)]
    out = []
    for s, v in lookup(E, st, m, key):
        if v is None:
            E.panic(s, "absent key", fr, line)
        else:
            typed(v, E.p.vty(ts[2]))
            out.append((s, v))
    return out


@primrx(primname + r"(values_mut|iter_mut|retain|drain|get_or_insert_with|get_many_mut)$")
def map_mut(E, st, fr, f, av, line):
    raise Bail("map changed in place by " + f[3][-40:])


@primrx(primname + r"(get)$")
def map_get(E, st, fr, f, av, line):
    m = E.deref(st, av[0])
    key = E.freeze(st, av[1])
    vt = None
    ts = [t for t in f[6] if isinstance(t, int)]
    out = []
    for s, v in lookup(E, st, m, key):
        if v is not None and len(ts) > 1:
            typed(v, E.p.vty(ts[1]))
        out.append((s, E.NONE if v is None else E.some(v)))
    return out


@primrx(primname + r"(contains_key|contains)$")
def map_has(E, st, fr, f, av, line):
    m = E.deref(st, av[0])
    key = E.freeze(st, av[1])
    return [(s, FALSE if v is None else TRUE) for s, v in lookup(E, st, m, key)]


@primrx(primname + r"insert$")
def map_insert(E, st, fr, f, av, line):
    out = []
    m = asmap(E.deref(st, av[0]))
    key = E.freeze(st, av[1])
    val = E.freeze(st, av[2]) if len(av) > 2 else UNIT
    st = st.copy()
    base, items = m.a[3]
    E.setref(st, av[0], mkmap(base, mkseq(items_of(items) + (mk("ins", key, val),))))
    if len(av) > 2:
        return [(st, mk("mapold", mapterm(m), key))]
    return [(st, typed(mk("notin", mapterm(m), key), "bool"))]


@primrx(primname + r"remove$")
def map_remove(E, st, fr, f, av, line):
    m = asmap(E.deref(st, av[0]))
    key = E.freeze(st, av[1])
    out = []
    for s, v in lookup(E, st, m, key):
        s = s.copy()
        base, items = m.a[3]
        if v is not None:
            E.setref(s, av[0], mkmap(base, mkseq(items_of(items) + (mk("rem", key),))))
        out.append((s, E.NONE if v is None else E.some(v)))
    return out


@primrx(primname + r"len$")
def map_len(E, st, fr, f, av, line):
    m = asmap(E.deref(st, av[0]))
    if m.a[3][0] is MAP0 and m.a[3][1] is EMPTY:
        return [(st, I(0))]
    return [(st, typed(mk("maplen", mapterm(m)), U64))]


@primrx(primname + r"(iter|values|keys|into_iter)$", r"^<(&'a )?(hashbrown|std::collections).*(Map|Set)<.* as std::iter::IntoIterator>::into_iter$")
def map_iter(E, st, fr, f, av, line):
    m = asmap(E.deref(st, av[0]))
    s = mk("entries" if "iter" in f[3].split("::")[-1] else f[3].split("::")[-1], mapterm(m))
    return [(st, mkiter(s, I(0), seqlen(s)))]


@primrx(primname + r"entry$")
def map_entry(E, st, fr, f, av, line):
    m = E.deref(st, av[0])
    key = E.freeze(st, av[1])
    out = []
    nm = "hashbrown::map::Entry" if "hashbrown" in f[3] else ("std::collections::btree_map::Entry" if "BTree" in f[3] else "std::collections::hash_map::Entry")
    for s, v in lookup(E, st, m, key):
        ent = mk("agg", "ent", "", ("key", "map", "val"), (key, av[0], v if v is not None else UNIT))
        out.append((s, mkagg(nm, "Vacant" if v is None else "Occupied", ("0",), (ent,))))
    return out


@primrx(r"VacantEntry::<.*>::insert$")
def vac_insert(E, st, fr, f, av, line):
    ent = E.deref(st, av[0])
    if ent.op != "agg" or ent.a[0] != "ent":
        return None
    key, mref, _ = ent.a[3]
    st = st.copy()
    m = asmap(E.deref(st, mref))
    base, items = m.a[3]
    val = E.freeze(st, av[1])
    E.setref(st, mref, mkmap(base, mkseq(items_of(items) + (mk("ins", key, val),))))
    return [slot(E, st, mref, key, val)]


def slot(E, st, mref, key, val):
    """a reference to the value of a map's entry"""
    if mref.op != "ref":
        raise Bail("reference into a map")
    c = newcell()
    st = st.copy()
    st.heap[c] = val
    E.slots[c] = (mref, key)
    m = asmap(E.deref(st, mref))
    if m is not E.deref(st, mref):
        E.setref(st, mref, m)
    return st, mkref(c, ())


@primrx(primname + r"get_mut$")
def map_get_mut(E, st, fr, f, av, line):
    if "Set" in f[3].split("<")[0]:
        raise Bail("set changed in place")
    m = E.deref(st, av[0])
    key = E.freeze(st, av[1])
    ts = [t for t in f[6] if isinstance(t, int)]
    out = []
    for s, v in lookup(E, st, m, key):
        if v is None:
            out.append((s, E.NONE))
            continue
        if len(ts) > 1:
            typed(v, E.p.vty(ts[1]))
        s, r = slot(E, s, av[0], key, v)
        out.append((s, E.some(r)))
    return out


@primrx(r"OccupiedEntry::<.*>::(get|into_mut|get_mut)$")
def occ_get(E, st, fr, f, av, line):
    ent = E.deref(st, av[0])
    if ent.op != "agg" or ent.a[0] != "ent":
        return None
    if f[3].endswith("mut"):
        return [slot(E, st, ent.a[3][1], ent.a[3][0], ent.a[3][2])]
    return [(st, ent.a[3][2])]


def default_of(E, t):
    vt = E.p.vty(t)
    d = E.p.d(t)
    if vt and vt[0] == "i" or vt == "bool":
        return I(0)
    nm = d[1] if d[0] == "adt" else ""
    if re.search(r"(Hash|BTree)(Map|Set)$", nm):
        return mkmap(MAP0, EMPTY)
    if nm in ("std::vec::Vec", "std::string::String"):
        return EMPTY
    if nm == "std::option::Option":
        return mk("agg", nm, "None", (), ())
    raise Bail("default of " + str(nm))


@primrx(r"map::Entry::<.*>::(or_insert_with|or_insert|or_default)$")
def or_insert(E, st, fr, f, av, line):
    e = E.deref(st, av[0])
    if e.op != "agg" or not e.a[3]:
        return None
    ent = e.a[3][0]
    key, mref, val = ent.a[3]
    if e.a[1] == "Occupied":
        return [slot(E, st, mref, key, val)]
    out = []
    if f[3].endswith("or_insert_with"):
        rs = E.call_value(st, fr, av[1], [], line)
    elif f[3].endswith("or_insert"):
        rs = [(st, av[1])]
    else:
        rs = [(st, default_of(E, [t for t in f[6] if isinstance(t, int)][1]))]
    for s, v in rs:
        s = s.copy()
        m = asmap(E.deref(s, mref))
        base, items = m.a[3]
        v = E.freeze(s, v)
        E.setref(s, mref, mkmap(base, mkseq(items_of(items) + (mk("ins", key, v),))))
        out.append(slot(E, s, mref, key, v))
    return out


@primrx(r"map::Entry::<.*>::and_modify$")
def and_modify(E, st, fr, f, av, line):
    e = E.deref(st, av[0])
    if e.op != "agg" or not e.a[3]:
        return None
    ent = e.a[3][0]
    key, mref, val = ent.a[3]
    if e.a[1] != "Occupied":
        return [(st, e)]
    out = []
    c = newcell()
    st = st.copy()
    st.heap[c] = val
    for s, _ in E.call_value(st, fr, av[1], [mkref(c, ())], line):
        s = s.copy()
        nv = E.freeze(s, s.heap.pop(c))
        m = asmap(E.deref(s, mref))
        base, items = m.a[3]
        E.setref(s, mref, mkmap(base, mkseq(items_of(items) + (mk("ins", key, nv),))))
        ent2 = mk("agg", "ent", "", ("key", "map", "val"), (key, mref, nv))
        out.append((s, mkagg(e.a[0], "Occupied", ("0",), (ent2,))))
    return out


@primrx(r"^<(hashbrown|std::collections).*(Map|Set)<.*> as std::iter::FromIterator<.*>>::from_iter$")
def map_from_iter(E, st, fr, f, av, line):
    it = E.deref(st, av[0])
    if it.op == "agg" and it.a[0] == "SliceIter":
        back, front, seq = it.a[3]
        q = mkslice(seq, front, back)
        its = items_of(q) if q.op in ("seq", "str") else None
        if "Set<" in f[3] and its is not None and all(i.op in ("el", "lit") for i in its):
            # a set of these elements
            ins = []
            for i in its:
                for x in [i.a[0]] if i.op == "el" else [I(b if isinstance(b, int) else ord(b)) for b in i.a[0]]:
                    ins.append(mk("ins", x, UNIT))
            return [(st, mkmap(MAP0, mkseq(tuple(ins))))]
        return [(st, mkmap(mk("mapfrom", q), EMPTY))]
    return None


# ---------------------------------------------------------------- formatting
@primrx(r"^core::fmt::rt::Argument::<'_>::new_(\w+)$", r"^std::fmt::rt::Argument::<'_>::new_(\w+)$")
def fmt_arg(E, st, fr, f, av, line):
    kind = f[3].split("new_")[-1]
    return [(st, mk("fa", kind, f[6][0] if f[6] else -1, E.freeze(st, av[0])))]


@primrx(r"^core::fmt::rt::Argument::<'_>::from_usize$")
def fmt_usize(E, st, fr, f, av, line):
    return [(st, mk("fa", "usize", -1, E.freeze(st, av[0])))]


STRTYPES = {"str", "std::string::String"}


def display_item(E, ty, v, spec, kind):
    stringy = False
    if ty != -1:
        t = E.p.peel(ty)
        nm = E.p.tname(t)
        d = E.p.d(t)
        if d[0] == "str" or nm in STRTYPES or nm == "std::fmt::Arguments" or nm.startswith("std::fmt::Arguments"):
            stringy = True
        if d[0] == "adt" and d[1] in ("std::string::String", "flexstr::FlexStr", "itertools::format::Format", "itertools::Format"):
            stringy = True
        tn = d[1] if d[0] == "adt" else nm
    else:
        tn = "?"
    if kind in ("display", "d") and spec is None:
        if stringy or v.op == "str":
            return mk("span", v)
        if v.op == "int" and E.p.d(E.p.peel(ty))[0] == "int":
            return mk("lit", str(v.a[0]))
        if v.op == "int" and E.p.d(E.p.peel(ty))[0] == "char":
            return mk("lit", chr(v.a[0]))
    return mk("fmt", kind if kind != "d" else "display", spec or (), tn if not stringy else "str", v)


@primrx(r"^std::fmt::Arguments::<'a>::from_str")
def fmt_from_str(E, st, fr, f, av, line):
    return [(st, E.deref(st, av[0]))]


@primrx(r"^std::fmt::Arguments::<'a>::new$")
def fmt_new(E, st, fr, f, av, line):
    tpl = E.deref(st, av[0])
    args = E.deref(st, av[1])
    bs = bytes(i.a[0].a[0] for i in items_of(tpl)) if tpl.op == "seq" else tpl.a[0].encode("latin1") if tpl.op == "str" else None
    if bs is None:
        return None
    argl = [i.a[0] for i in items_of(args)]
    items = []
    i = 0
    nexta = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            items.append(mk("lit", bs[i:i + n].decode()))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            items.append(mk("lit", bs[i:i + ln].decode()))
            i += ln
        else:
            spec = []
            if n & 1:
                spec.append(("flags", int.from_bytes(bs[i:i + 4], "little")))
                i += 4
            w = p = None
            if n & 2:
                w = int.from_bytes(bs[i:i + 2], "little")
                i += 2
            if n & 4:
                p = int.from_bytes(bs[i:i + 2], "little")
                i += 2
            if n & 8:
                nexta = int.from_bytes(bs[i:i + 2], "little")
                i += 2
            if w is not None:
                spec.append(("width", argl[w].a[2] if n & 16 else w))
            if p is not None:
                spec.append(("prec", argl[p].a[2] if n & 32 else p))
            a = argl[nexta]
            nexta += 1
            if a.op != "fa":
                items.append(mk("fmt", "?", (), "?", a))
            else:
                items.append(display_item(E, a.a[1], a.a[2], tuple(spec) or None, a.a[0]))
    return [(st, mkseq(tuple(items)))]


@prim("std::fmt::Arguments::<'a>::as_statically_known_str", "std::fmt::Arguments::<'a>::as_str")
def fmt_as_str(E, st, fr, f, av, line):
    return [(st, E.NONE)]


@primrx(r"^std::fmt::Formatter::<'a>::(write_str|write_fmt|pad)$", r"^<std::fmt::Formatter<.*> as std::fmt::Write>::write_(str|fmt)$",
        r"^<std::string::String as std::fmt::Write>::write_(str|fmt)$", r"^std::fmt::Write::write_fmt$")
def formatter_write(E, st, fr, f, av, line):
    st = st.copy()
    s = E.deref(st, av[0])
    E.setref(st, av[0], concat(s, E.deref(st, av[1])))
    return [(st, E.ok(UNIT))]


@primrx(r"^<(.*) as std::fmt::Display>::fmt$", r"^std::fmt::num::.*Display for .*>::fmt$", r"<impl std::fmt::Display for .*>::fmt$")
def display_fmt(E, st, fr, f, av, line):
    if f[4] not in ("core", "alloc", "std", "flexstr"):
        return None
    st = st.copy()
    s = E.deref(st, av[1])
    v = E.freeze(st, av[0])
    m = re.search(r"\b([ui](8|16|32|64|128|size)|f32|f64|bool|char)>?(>::| as )", f[3])
    it = mk("fmt", "display", (), m.group(1), v) if m and v.op != "int" else mk("lit", str(v.a[0])) if m and m.group(1)[0] in "ui" else mk("span", v)
    E.setref(st, av[1], mkseq(items_of(s) + (it,)))
    return [(st, E.ok(UNIT))]


# ---------------------------------------------------------------- bitfields
def width_of(E, t):
    nm = E.p.tname(t)
    if nm == "bool":
        return 1
    m = re.search(r"B(\d+)$", nm)
    if m:
        return int(m.group(1))
    return None


def bits(b, off, w):
    if b.op == "setbits":
        base, ov = b.a
        for (o, ww, v) in ov:
            if o == off and ww == w:
                return v
            if o < off + w and off < o + ww:
                return mk("bits", b, off, w)
        return bits(base, off, w)
    if b.op == "seq" and all(i.op == "el" and i.a[0].op == "int" for i in b.a[0]):
        x = int.from_bytes(bytes(i.a[0].a[0] for i in b.a[0]), "little")
        return I((x >> off) & ((1 << w) - 1))
    return typed(mk("bits", b, off, w), "bool" if w == 1 else ("set", ((0, (1 << w) - 1),)))


REBUILD["bits"] = bits


@prim("modular_bitfield::private::proc::read_specifier")
def read_spec(E, st, fr, f, av, line):
    w = width_of(E, f[6][0])
    b = E.deref(st, av[0])
    if w is None or av[1].op != "int":
        return None
    return [(st, bits(b, av[1].a[0], w))]


@prim("modular_bitfield::private::proc::write_specifier")
def write_spec(E, st, fr, f, av, line):
    w = width_of(E, f[6][0])
    if w is None or av[1].op != "int":
        return None
    st = st.copy()
    b = E.deref(st, av[0])
    base, ov = b.a if b.op == "setbits" else (b, ())
    off = av[1].a[0]
    v = av[2]
    ov = tuple(x for x in ov if not (x[0] == off and x[1] == w))
    if v is bits(base, off, w):
        new = mk("setbits", base, ov) if ov else base
    else:
        new = mk("setbits", base, tuple(sorted(ov + ((off, w, v),), key=lambda x: x[0])))
    E.setref(st, av[0], new)
    return [(st, UNIT)]


@primrx(r"^modular_bitfield::.*Specifier for .*>::(from_bytes|into_bytes)$", r"^<modular_bitfield::.* as modular_bitfield::Specifier>::(from|into)_bytes$")
def spec_bytes(E, st, fr, f, av, line):
    return [(st, E.ok(av[0]))]


@prim("modular_bitfield::error::InvalidBitPattern::<Bytes>::new")
def ibp(E, st, fr, f, av, line):
    return [(st, mk("badbits", av[0]))]


# ---------------------------------------------------------------- misc
@prim("log::max_level")
def log_level(E, st, fr, f, av, line):
    return [(st, mk("agg", "log::LevelFilter", "Off", (), ()))]


@prim("<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::partial_cmp")
def log_cmp(E, st, fr, f, av, line):
    return [(st, E.some(mk("agg", "std::cmp::Ordering", "Greater", (), ())))]


@primrx(r"^log::__private_api")
def log_(E, st, fr, f, av, line):
    return [(st, UNIT)]


@primrx(r"^std::intrinsics::cold_path$", r"^core::intrinsics::cold_path$", r"^std::mem::(drop|forget)$")
def nothing(E, st, fr, f, av, line):
    return [(st, UNIT)]


@prim("std::mem::size_of")
def size_of(E, st, fr, f, av, line):
    return [(st, I(E.p.size(f[6][0])))]


@prim("intr:size_of", "intr:min_align_of")
def i_size_of(E, st, fr, tys, av, line):
    return [(st, I(E.p.size(tys[0])))]


@prim("intr:discriminant_value")
def i_discr(E, st, fr, tys, av, line):
    return [(st, E.discr_of(E.deref(st, av[0]), tys[0]))]


@prim("intr:assume", "intr:assert_inhabited", "intr:assert_zero_valid")
def i_assume(E, st, fr, tys, av, line):
    return [(st, UNIT)]


@prim("intr:likely", "intr:unlikely", "intr:black_box", "intr:transmute")
def i_id(E, st, fr, tys, av, line):
    return [(st, av[0])]


@prim("intr:cold_path")
def i_cold(E, st, fr, tys, av, line):
    return [(st, UNIT)]


def wrapop(op):
    def g(E, st, fr, tys, av, line):
        t = E.p.vty(tys[0])
        lo, hi = tyrange(t)[0]
        r = {"add": add, "sub": sub}[op](av[0], av[1])
        a, b = rng(r, st.facts)
        if a >= lo and b <= hi:
            return [(st, r)]
        return [(st, E.int_cast(st, r, t))]
    return g


P["intr:wrapping_add"] = wrapop("add")
P["intr:wrapping_sub"] = wrapop("sub")


@primrx(r"num::<impl [ui]\w+>::(wrapping|saturating|checked|overflowing)_(add|sub|mul|neg)$")
def arith(E, st, fr, f, av, line):
    m = re.search(r"<impl ([ui])(\w+)>::(\w+)_(\w+)$", f[3])
    bits_ = 64 if m.group(2) == "size" else int(m.group(2))
    t = ("i", bits_ // 8, m.group(1) == "i")
    lo, hi = tyrange(t)[0]
    a = E.deref(st, av[0])
    b = E.deref(st, av[1]) if len(av) > 1 else None
    op = m.group(4)
    if op == "add":
        r = add(a, b)
    elif op == "sub":
        r = sub(a, b)
    elif op == "neg":
        r = scale(a, -1)
    else:
        if a.op == "int":
            r = scale(b, a.a[0])
        elif b.op == "int":
            r = scale(a, b.a[0])
        else:
            x, y = sorted((a, b), key=dig)
            r = mk("mul", x, y)
    mode = m.group(3)
    x, y = rng(r, st.facts)
    if x >= lo and y <= hi:
        return [(st, r if mode not in ("checked",) else E.some(r))]
    if mode == "checked":
        t1, e = E.branch(st, mkin(r, iv(lo, hi)))
        return [(s, E.some(r)) for s in t1] + [(s, E.NONE) for s in e]
    if mode == "wrapping":
        return [(st, E.int_cast(st, r, t))]
    if mode == "saturating":
        out = []
        for s in E.assume(st, mkin(r, iv(lo, hi)), True):
            out.append((s, r))
        for s in E.assume(st, mkin(r, iv(hi + 1, INF)), True):
            out.append((s, I(hi)))
        for s in E.assume(st, mkin(r, iv(-INF, lo - 1)), True):
            out.append((s, I(lo)))
        return out
    return None


@primrx(r"<impl std::convert::TryFrom<.*> for [ui]\w+>::try_from$")
def try_from(E, st, fr, f, av, line):
    m = re.search(r"for ([ui])(\w+)>::try_from", f[3])
    bits_ = 64 if m.group(2) == "size" else int(m.group(2))
    lo, hi = tyrange(("i", bits_ // 8, m.group(1) == "i"))[0]
    v = E.deref(st, av[0])
    t, e = E.branch(st, mkin(v, iv(lo, hi)))
    return [(s, E.ok(v)) for s in t] + [(s, E.er(mk("agg", "std::num::TryFromIntError", "", (), ()))) for s in e]


@primrx(r"^std::cmp::impls::<impl std::cmp::(Partial)?Ord for ([ui]\w+|bool|char)>::(partial_)?cmp$")
def int_cmp(E, st, fr, f, av, line):
    a, b = E.deref(st, av[0]), E.deref(st, av[1])
    d = sub(a, b)
    out = []
    for nm, S in (("Less", iv(-INF, -1)), ("Equal", ((0, 0),)), ("Greater", iv(1, INF))):
        for s in E.assume(st, mkin(d, S), True):
            v = mk("agg", "std::cmp::Ordering", nm, (), ())
            out.append((s, E.some(v) if "partial_cmp" in f[3] else v))
    return out


@primrx(r"^<\(?.* as std::default::Default>::default$")
def default(E, st, fr, f, av, line):
    m = re.match(r"^<([ui]\w+|bool) as", f[3])
    if m:
        return [(st, I(0))]
    return None


@primrx(r"^std::cmp::(min|max)$", r"^std::cmp::Ord::(min|max)$", r"<impl std::cmp::Ord for [ui]\w+>::(min|max)$")
def minmax(E, st, fr, f, av, line):
    a, b = E.deref(st, av[0]), E.deref(st, av[1])
    if not (E.p.vty(f[6][0]) if f[6] else ("i",)) or (f[6] and E.p.vty(f[6][0])[0] != "i"):
        return None
    out = []
    ismin = f[3].endswith("min")
    for s in E.assume(st, cmp_lt(a, b), True):
        out.append((s, a if ismin else b))
    for s in E.assume(st, cmp_lt(a, b), False):
        out.append((s, b if ismin else a))
    return out


@prim("std::boxed::Box::<T>::new_uninit")
def box_uninit(E, st, fr, f, av, line):
    return [(st, UNINIT)]


@primrx(r"^core::slice::<impl \[T\]>::binary_search(_by|_by_key)?$")
def bsearch(E, st, fr, f, av, line):
    """the comparison is part of the result's identity; over integers the three forms are one"""
    bv = mk("bound")
    if f[3].endswith("binary_search"):
        x = E.freeze(st, E.deref(st, av[1]))
        if not f[6] or E.p.vty(f[6][0]) is None or E.p.vty(f[6][0])[0] != "i":
            return None
        rs = [(st, bv)]
    else:
        rs = E.call_value(st, fr, av[-1], [bv], line)
        x = None
        if f[3].endswith("_key") and f[6] and len(f[6]) > 1 and any(E.p.vty(t) and E.p.vty(t)[0] == "i" for t in f[6][1:2]):
            x = E.freeze(st, E.deref(st, av[1]))

    def order(v):
        if x is None:
            return v
        return mkcase(sub(v, x), [(S, mk("agg", "std::cmp::Ordering", nm, (), ())) for nm, S in (("Less", iv(-INF, -1)), ("Equal", ((0, 0),)), ("Greater", iv(1, INF)))])

    key = tuple(sorted(((tuple(sorted(((a, S) for a, S in s.facts.items() if st.facts.get(a) != S), key=lambda p: dig(p[0]))),
                         order(E.freeze(s, v))) for s, v in rs), key=tdig))
    name = f[3]
    rest = list(av[1:-1])
    if x is not None:
        name, rest = "core::slice::<impl [T]>::binary_search_by", []
    return E.external(st, name, [E.deref(st, av[0])] + rest + [mk("key", key)], f)
