"""Path summary of one analysis root in the form that is stored and compared."""
from .terms import *
from .roots import run_root, norm_facts, apply

PANICS = ("unwrap", "bounds", "panic", "unreachable", "div", "rem", "overflow:Div", "overflow:Rem", "slice", "borrow", "assert")


class Out:
    pass


def free_loop(x):
    """mentions a loop variable or the state of an enclosing iteration"""
    found = []

    def f(n):
        if n.op in ("k", "pv", "pseq", "pmap"):
            found.append(n)

    if isinstance(x, Nd):
        walk(x, f)
    else:
        for y in x or ():
            if isinstance(y, (Nd, tuple)) and free_loop(y):
                return True
    return bool(found)


def summarise(prog, root, io=False):
    r = run_root(prog, root, io_errors=io)
    o = Out()
    o.root = root
    o.bail = r.bail
    o.paths = None
    o.panics = []
    o.functions = len(getattr(r, "visited", ()))
    o.visited = set(getattr(r, "visited", ()))
    o.steps = getattr(r, "steps", 0)
    o.ext = sorted(r.ext)
    o.sig = signature(prog, root)
    if r.paths is None:
        return o
    o.paths = []
    o.errs = []
    for p in r.paths:
        if p.err:
            o.errs.append((p.facts, p.ret, p.outs))
        else:
            o.paths.append((p.facts, "ret", p.ret, list(p.outs)))
    for kind, key, line, st, msg, stack in r.panics:
        if kind.startswith("overflow"):
            continue
        facts, m = norm_facts(st.facts)
        f = prog.fns.get(key)
        o.panics.append((kind, f[3] if f else str(key), line, facts, st.err))
    return o


def find(prog, root):
    for n, k in prog.roots.items():
        if n == root or n.endswith("::" + root):
            return k
    c = [k for k, f in prog.fns.items() if f[3] == root and f[8] is not None]
    return c[0] if len(c) == 1 else None


def signature(prog, root):
    k = find(prog, root)
    if k is None:
        return None
    b = prog.fns[k][8]
    return [prog.tname(b["locals"][i]) for i in range(0, b["argc"] + 1)]
