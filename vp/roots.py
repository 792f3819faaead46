"""Runs the analysis on one root and collects its path summary."""
import hashlib
from .terms import *
from .engine import Engine, St, Bail, mkref, newcell
from .prims import P


class Path:
    __slots__ = ("facts", "ret", "outs", "err", "panic")


class Summary:
    pass


def sym_content(prog, name, t):
    """symbolic value of type t"""
    p = prog.peel(t)
    d = prog.d(p)
    if d[0] == "adt" and d[1] in ("vp_harness::In", "In"):
        return mk("agg", "In", "", ("pos",), (I(0),))
    if d[0] == "adt" and d[1] in ("vp_harness::Out", "Out"):
        return mk("agg", "Out", "", ("log", "pos"), (EMPTY, I(0)))
    if d[0] == "adt" and d[1] == "std::fmt::Formatter":
        return EMPTY
    return typed(mk("arg", name, prog.tname(p)), prog.vty(t))


UNITS = {
    "<redscript::bytecode::Code<redscript::bytecode::Offset> as redscript::decode::Decode>::decode",
    "<redscript::bytecode::Code<redscript::bytecode::Offset> as redscript::encode::Encode>::encode",
    "<redscript::definition::AnyDefinition as redscript::encode::Encode>::encode",
    "redscript::definition::Definition::decode",
    "redscript_decompiler::Decompiler::<'a>::consume_with",
    "redscript_decompiler::Decompiler::<'a>::consume_path",
    "redscript_decompiler::Decompiler::<'a>::consume_switch",
    "redscript_decompiler::Decompiler::<'a>::consume_conditional_jump",
    "redscript_decompiler::Decompiler::<'a>::decompiled",
    "redscript_decompiler::print::write_expr_nested",
    "redscript_decompiler::print::write_definition",
    "redscript_decompiler::print::write_function_body",
    "redscript_decompiler::print::format_type",
}


# units whose summaries tell apart success and failure of the other units they use
REC_ERR = {
    "redscript_decompiler::Decompiler::<'a>::consume_with",
    "redscript_decompiler::Decompiler::<'a>::consume_path",
    "redscript_decompiler::Decompiler::<'a>::consume_conditional_jump",
    "decompiled",
    "redscript_decompiler::print::write_function_body",
    "redscript_decompiler::print::format_type",
    "print_definition",
}


def run_root(prog, root, io_errors=False, cut=UNITS, max_paths=6000):
    key = None
    for n, k in prog.roots.items():
        if n == root or n.endswith("::" + root):
            key = k
    if key is None and "::" in root:
        # a private function analysed on its own: every argument symbolic
        cands = [k for k, f in prog.fns.items() if f[3] == root and f[8] is not None]
        if len(cands) == 1:
            key = cands[0]
    S = Summary()
    S.root = root
    S.paths = None
    S.bail = None
    S.ext = set()
    S.panics = []
    if key is None:
        S.bail = "root not found"
        return S
    # loop variables are numbered from a base that depends on the root alone, so that the order in which terms are
    # normalised does not depend on what was analysed before
    from . import engine as _en
    _en._gid[0] = int.from_bytes(hashlib.blake2b((root + str(io_errors)).encode(), digest_size=5).digest(), "big") << 24
    _en._cell[0] = 1000
    E = Engine(prog, P, io_errors=io_errors, cut=cut, max_paths=max_paths)
    E.rec_err = root in REC_ERR and not io_errors
    body = prog.fns[key][8]
    st = St()
    st.heap = {}
    st.facts = {}
    st.depth = 0
    st.err = False
    st.ext = frozenset()
    args = []
    tracked = []
    names = dict(body["names"])
    for i in range(1, body["argc"] + 1):
        t = body["locals"][i]
        nm = "a%d" % i
        if key in prog.rootkeys:
            for l, n in body["names"]:
                if l == i:
                    nm = n
        d = prog.d(t)
        if d[0] == "ref" and d[2]:
            c = -i
            st.heap[c] = sym_content(prog, nm, d[1])
            args.append(mkref(c, ()))
            tracked.append((nm, c, st.heap[c]))
        else:
            args.append(sym_content(prog, nm, t))
    try:
        res = E.exec_fn(st, key, args, ())
        S.paths = []
        for s, v in res:
            p = Path()
            p.err = s.err
            outs = []
            for nm, c, init in tracked:
                cur = E.freeze(s, s.heap[c])
                if cur is not init:
                    outs.append((nm, cur))
            ret = E.freeze(s, v)
            facts, m = norm_facts(s.facts)
            p.facts = facts
            p.ret = apply(ret, m)
            p.outs = [(n, apply(v, m)) for n, v in outs]
            p.panic = None
            S.paths.append(p)
            S.ext |= s.ext
    except Bail as e:
        S.bail = str(e)
    except RecursionError:
        S.bail = "recursion"
    S.panics = E.panics
    S.visited = E.visited
    S.sites = E.sites
    S.steps = E.steps
    return S


def norm_facts(facts):
    from .engine import DISCR
    m = {}
    out = []
    for a, S in facts.items():
        if S == universe(a):
            continue
        out.append(orient(a, S))
        if len(S) == 1 and S[0][0] == S[0][1]:
            if a.op not in ("lin", "strid", "discr"):
                m[a] = I(S[0][0])
            if a.op == "discr":
                pass
    out.sort(key=lambda p: dig(p[0]))
    return tuple(out), m


def apply(v, m):
    if not m:
        return v
    return subst(v, m)
