"""Storage of path summaries (term DAGs) as JSON."""
import json
from .terms import Nd, mk, typed
from .engine import DISCR


class Writer:
    def __init__(self):
        self.ix = {}
        self.rows = []

    def val(self, x):
        if isinstance(x, Nd):
            return {"n": self.node(x)}
        if isinstance(x, tuple):
            return [self.val(y) for y in x]
        return x

    def node(self, n):
        i = self.ix.get(n)
        if i is not None:
            return i
        a = [self.val(x) for x in n.a]
        row = [n.op, a]
        dv = DISCR.get(n)
        if n.ty is not None or dv:
            row.append(self.val(n.ty) if n.ty is not None else None)
        if dv:
            row.append(sorted(dv.items()))
        i = len(self.rows)
        self.rows.append(row)
        self.ix[n] = i
        return i


def dump(summary):
    """summary: list of (facts, kind, ret, outs)"""
    w = Writer()
    paths = []
    for facts, kind, ret, outs in summary:
        paths.append([w.val(facts), kind, w.val(ret), [[n, w.val(v)] for n, v in outs]])
    return {"paths": paths, "nodes": w.rows}


def load(obj):
    nodes = []
    rows = obj["_discr"] = []

    def val(x):
        if isinstance(x, dict):
            return nodes[x["n"]]
        if isinstance(x, list):
            return tuple(val(y) for y in x)
        return x

    for row in obj["nodes"]:
        n = mk(row[0], *[val(x) for x in row[1]])
        if len(row) > 2 and row[2] is not None:
            typed(n, val(row[2]))
        if len(row) > 3:
            m = {k: v for k, v in row[3]}
            DISCR.setdefault(n, m)
            rows.append((n, m))
        nodes.append(n)
    return [(val(f), k, val(r), [(n, val(v)) for n, v in o]) for f, k, r, o in obj["paths"]]


def discr_rows(obj):
    """[(node, {number: variant})] of the stored variant maps; call after load()"""
    return obj.get("_discr", [])


def text(o):
    """one node per line, so that the stored reference can be read and diffed"""
    head = {k: v for k, v in o.items() if k not in ("nodes", "paths")}
    L = ["{"]
    for k, v in sorted(head.items()):
        L.append(json.dumps(k) + ": " + json.dumps(v) + ",")
    L.append('"nodes": [')
    L.append(",\n".join(json.dumps(r, separators=(",", ":")) for r in o["nodes"]))
    L.append('],\n"paths": [')
    L.append(",\n".join(json.dumps(r, separators=(",", ":")) for r in o["paths"]))
    L.append("]\n}\n")
    return "\n".join(L)
