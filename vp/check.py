"""python3 -m vp.check <property> [--bless root...]

Decides one property from /repo's current source.  Nothing of /repo is executed."""
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time

sys.setrecursionlimit(200000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")

from . import build, diff, interp, spec as specio, summ
from .engine import Prog, DISCR
from .table import TABLE
from .terms import *


def spec_path(root):
    return os.path.join(SPEC, re.sub(r"[^A-Za-z0-9_]+", "_", root).strip("_") + ".json")


def known_fields():
    out = set()
    for f in os.listdir(SPEC):
        if f.endswith(".json"):
            for row in json.load(open(os.path.join(SPEC, f)))["nodes"]:
                if row[0] == "fld":
                    out.add(row[1][2])
                elif row[0] == "ext":
                    interp.KNOWN_EXT.add(row[1][0])
                elif row[0] == "agg":
                    out.update(x for x in row[1][2] if isinstance(x, str))
    return out


def source_of(prog, root):
    """functions of /repo in the analysed region, with the file they are in"""
    k = summ.find(prog, root)
    f = prog.fns.get(k)
    return f


PROG = None
FIELDS = None
SEED = 1
MORE_SECONDS = 90
INTERP_SECONDS = 20
ROOT_SECONDS = 400


def repo_fns(prog, visited):
    out = []
    for k in visited:
        f = prog.fns.get(k)
        if f and ("redscript" in f[3]) and "vp_harness" not in f[3]:
            out.append(f)
    return out


class Late(Exception):
    pass


def late(*_):
    raise Late("time limit of one entry point")


def task(arg):
    root, mode = arg
    t0 = time.time()
    res = dict(root=root, mode=mode, status="held", violations=[], notes=[], functions=[], paths=0, steps=0)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(ROOT_SECONDS)
    try:
        try:
            run(root, mode, res)
        finally:
            signal.alarm(0)
    except Exception as e:  # an error of the analysis is never an alarm
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res["status"] = "undecided"
        res["notes"].append("analysis error %s at %s:%d %s" % (type(e).__name__, os.path.basename(tb.filename), tb.lineno, str(e)[:120]))
    res["seconds"] = round(time.time() - t0, 3)
    return res


def run(root, mode, res):
    prog = PROG
    s = summ.summarise(prog, root, io=(mode == "io"))
    fns = repo_fns(prog, s.visited)
    res["functions"] = sorted({f[3] for f in fns})
    res["steps"] = s.steps
    k = summ.find(prog, root)
    where = prog.fns[k] if k is not None else None
    res["where"] = loc(where)
    if s.paths is None:
        res["status"] = "undecided"
        res["notes"].append("not analysed: %s" % s.bail)
        return
    res["paths"] = len(s.paths)
    if mode == "io":
        return io_mode(s, res)
    path = spec_path(root)
    if not os.path.exists(path):
        res["status"] = "undecided"
        res["notes"].append("no reference")
        return
    obj = json.load(open(path))
    if mode == "panics":
        return panic_mode(s, res, obj)
    before = {n: dict(m) for n, m in DISCR.items()}
    ref = specio.load(obj)
    res["reference_paths"] = len(ref)
    if obj["sig"] != s.sig:
        res["status"] = "undecided"
        res["notes"].append("signature changed: %s -> %s" % (obj["sig"], s.sig))
        return
    for row in specio.discr_rows(obj):
        n, m = row
        if n in before and before[n] != m:
            res["status"] = "undecided"
            res["notes"].append("variant numbering changed")
            return
    cut_changed = [u for u, sg in obj.get("cuts", {}).items() if summ.signature(prog, u) != sg and not fixed_signature(u)]
    code = list(s.paths)
    same = set(obj.get("panicdig", ()))
    known = set()
    if not obj.get("inloop"):
        for kind, fn, line, facts, err in s.panics:
            if not err and not summ.free_loop(facts):
                code.append((facts, "panic", mk("str", kind + " in " + fn), []))
                if panic_id(kind, fn, facts) in same:
                    known.add(id(code[-1]))
    out, why, st = diff.compare(ref, code, fields=FIELDS)
    res.update(st)
    if not out and not why:
        return
    definite = [d for d in out if d.definite]
    R = None
    if not cut_changed:
        interp.learn_adts(prog)
        R = interp.compare(ref, code, seed=SEED, seconds=INTERP_SECONDS, cuts=set(obj.get("cuts", {})), known=known)
        interp.compare_more(ref, code, R, SEED, MORE_SECONDS, 6, cuts=set(obj.get("cuts", {})), known=known)
        res["valuations"] = dict(uninterpreted=dict(R.gaveup), tried=R.samples, valid=R.valid, agreed=R.agreed, paths_covered=len(R.covered), paths_differing=R.differing)
    if cut_changed:
        res["notes"].append("changed units: %s" % cut_changed)
        res["status"] = "undecided"
    elif R.finding:
        f = R.finding
        res["violations"].append(dict(root=root, location=loc(where), difference="%s differs: the reference gives %s, the code gives %s" % (f.where, f.a[:400], f.b[:400]), inputs=f.values, structural=[d.text() for d in definite[:2]], analysed=res["functions"][:60]))
        res["status"] = "violated"
    elif len(R.covered) >= 0.8 * R.differing and (R.agreed >= 200 or R.agreed >= 20 and R.agreed >= 0.2 * R.samples) and R.stuck < 30 + 0.1 * R.valid:
        # the two sides are written differently and agree wherever they were evaluated
        res["notes"].append("equivalent on %d valuations of %d differing paths" % (R.agreed, R.differing))
        res["status"] = "held"
    elif definite and (R.samples == 0 or R.valid < 0.5 * R.samples) and R.agreed < 20:
        for d in definite[:3]:
            res["violations"].append(dict(root=root, location=loc(where), difference=d.text(), by="structure", analysed=res["functions"][:60]))
        res["status"] = "violated"
    else:
        res["status"] = "undecided"
        if why:
            res["notes"].append(why)
        for d in out[:2]:
            res["notes"].append("undecided: " + d.text()[:600])


def io_mode(s, res):
    n = 0
    for facts, ret, outs in s.errs:
        n += 1
        rets = leaves(ret)
        if all(propagates(r) for r in rets):
            continue
        if ret.op == "case":
            # decided by the kind of the failure: any kind may occur
            for r in rets:
                if r.op == "agg" and r.a[1] == "Ok" and only_kind(ret):
                    ret = r
        if ret.op == "agg" and ret.a[1] == "Ok":
            res["violations"].append(dict(root=s.root, location=res["where"], difference="an I/O failure is followed by a successful return: %s" % show(ret)[:200], facts=[show(a)[:160] + " in " + show_iv(S) for a, S in facts][:8]))
        else:
            res["notes"].append("unclassified failure result %s" % show(ret)[:120])
    res["failure_paths"] = n
    if res["violations"]:
        res["status"] = "violated"
    elif res["notes"]:
        res["status"] = "undecided"


def leaves(ret):
    if ret.op != "case":
        return [ret]
    return [x for _, v in ret.a[1] for x in leaves(v)]


def only_kind(ret):
    found = []
    walk(ret.a[0], lambda n: found.append(1) if n.op == "ioerr" else None)
    return bool(found)


def propagates(ret):
    return ret.op == "agg" and ret.a[1] == "Err"


# panic sites that a type invariant or the producer rules out; the invariant itself is decided by other properties
INVARIANT = {
    # as many offsets as instructions, index at most their number: kept by new, pop and seek_abs (C15)
    ("bounds", "redscript::bytecode::CodeCursor"),
    # expressions that only the parser builds, never the decompiler (C16, C17)
    ("panic", "redscript_decompiler::print::write_expr_nested"),
}


VARIANTS = {}


def variants(unit):
    """the variants an Option or Result returned by a unit can have: least fixpoint over the unit's own summary"""
    if unit not in VARIANTS:
        VARIANTS[unit] = None
        try:
            paths = summ.summarise(PROG, unit).paths
        except Exception:
            paths = None
        sig = summ.signature(PROG, unit)
        num = {"std::option::Option": {"None": 0, "Some": 1}, "std::result::Result": {"Ok": 0, "Err": 1}}.get(str(sig[0]).split("<")[0]) if sig else None
        if paths is not None and num:
            cur = set()
            while True:
                new = set(cur)
                for p in paths:
                    if p[1] == "ret" and not any(is_rec_discr(a, unit) and not any(inS(d, S) for d in cur) for a, S in p[0]):
                        reach(p[2], unit, cur, num, new)
                if new == cur:
                    break
                cur = new
            VARIANTS[unit] = cur
    v = VARIANTS[unit]
    return {0, 1} if v is None else v


def inS(v, S):
    return any(a <= v <= b for a, b in S)


def is_rec_discr(a, unit=None):
    return a.op == "discr" and a.a[0].op == "ret" and a.a[0].a[0].op == "rec" and (unit is None or a.a[0].a[0].a[0] == unit)


def reach(r, unit, cur, num, out):
    if r.op == "case":
        for S, v in r.a[1]:
            if not is_rec_discr(r.a[0], unit) or any(inS(d, S) for d in cur):
                reach(v, unit, cur, num, out)
    elif r.op == "agg" and r.a[1] in num:
        out.add(num[r.a[1]])
    elif r.op == "ret" and r.a[0].op == "rec" and r.a[0].a[0] == unit:
        pass
    else:
        out.update((0, 1))


def infeasible(facts):
    return any(is_rec_discr(a) and isinstance(a.a[0].a[0].a[0], str) and not any(inS(d, S) for d in variants(a.a[0].a[0].a[0])) for a, S in facts)


def fixed_signature(u):
    """an encoder or decoder of a type: the trait fixes its signature, so that only the kind of stream can differ, or its call is missing"""
    return u.startswith("<redscript::") and (" as redscript::encode::" in u or " as redscript::decode::" in u)


def panic_mode(s, res, obj):
    allowed = {(k, f) for k, f in obj.get("panics", [])}
    n = 0
    known = diff.Cmp(set())
    for kind, fn, line, facts, err in s.panics:
        n += 1
        if err or (kind, fn.split("::<")[0] if fn.startswith("redscript::bytecode") else fn) in INVARIANT:
            continue
        if infeasible(facts):
            continue
        if any(pv_in(a) for a, _ in facts):
            res["notes"].append("panic site under a loop-carried state: %s in %s" % (kind, fn))
            continue
        if not all(known.known(a) for a, _ in facts):
            res["notes"].append("panic site under an uninterpreted condition: %s in %s" % (kind, fn))
            continue
        res["violations"].append(dict(root=s.root, location=res["where"], difference="malformed input reaches a panic (%s, raised through %s)" % (kind, fn), facts=[show(a)[:160] + " in " + show_iv(S) for a, S in facts][:8]))
    res["panic_sites"] = n
    if res["violations"]:
        res["status"] = "violated"
    elif res["notes"]:
        res["status"] = "undecided"


def pv_in(x):
    found = []
    walk(x, lambda n: found.append(n) if n.op in ("pv", "pseq", "pmap") else None)
    return bool(found)


def loc(f):
    if f is None:
        return None
    return "%s (%s)" % (f[3], f[7] if len(f) > 7 else "?")


def panic_id(kind, fn, facts):
    return tdig((kind, fn, tuple(sorted(tdig((a, S)) for a, S in facts)))).hex()


def bless(prog, roots):
    for root in roots:
        s = summ.summarise(prog, root)
        if s.paths is None:
            print("bail", root, s.bail)
            continue
        o = specio.dump(s.paths)
        o["root"] = root
        o["sig"] = s.sig
        cuts = set()
        for nd in o["nodes"]:
            if nd[0] == "rec":
                cuts.add(nd[1][0])
        o["cuts"] = {c: summ.signature(prog, c) for c in sorted(cuts) if isinstance(c, str)}
        o["panics"] = sorted({(k, f) for k, f, l, fa, e in s.panics if not e})
        o["panicdig"] = sorted({panic_id(k, f, fa) for k, f, l, fa, e in s.panics if not e and not summ.free_loop(fa)})
        o["inloop"] = any(summ.free_loop(fa) for k, f, l, fa, e in s.panics)
        p = spec_path(root)
        open(p, "w").write(specio.text(o))


def main():
    global PROG, FIELDS, SEED, INTERP_SECONDS, MORE_SECONDS, ROOT_SECONDS
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--bless" in sys.argv:
        for h in build.HARNESS:
            path, dropped = build.facts(h)
            PROG = Prog(path)
            roots = sorted({r for t in TABLE.values() for r in t["roots"] if t.get("harness", "harness") == h and (not args or r in args)})
            bless(PROG, roots)
        return 0
    pid = args[0]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    SEED = seed
    INTERP_SECONDS = 20 if tier == "quick" else 120
    ROOT_SECONDS = 400 if tier == "quick" else 1800
    MORE_SECONDS = 90 if tier == "quick" else 300
    ent = TABLE[pid]
    mode = ent.get("mode", "ref")
    results, notes = [], []
    dropped = []
    try:
        build.driver()
        path, dropped = build.facts(ent.get("harness", "harness"))
        PROG = Prog(path)
        FIELDS = known_fields()
        jobs = [(r, mode) for r in ent["roots"]]
        if len(jobs) > 1:
            with mp.get_context("fork").Pool(min(8, len(jobs))) as pool:
                results = pool.map(task, jobs, chunksize=1)
        else:
            results = [task(j) for j in jobs]
    except build.BuildError as e:
        notes.append("not analysed: %s" % e)
    viol = [v for r in results for v in r["violations"]]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    code = 0
    if viol:
        rp = os.path.join(HERE, "evidence", "%s.violation.json" % pid)
        json.dump(dict(property=pid, violations=viol, how="python3 -m vp.check %s in /verif re-runs the analysis that reports it" % pid), open(rp, "w"), indent=1)
        for v in viol[:5]:
            print("%s: %s: %s" % (pid, v["location"], v["difference"][:700]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        code = 1
    for r in results:
        for n in r["notes"][:3]:
            print("note: %s: %s" % (r["root"], n[:300]))
    for n in notes:
        print("note:", n)
    write_evidence(pid, tier, seed, mode, results, notes, dropped, viol, time.time() - t0)
    fin = {}
    for r in results:
        fin[r["status"]] = fin.get(r["status"], 0) + 1
    print("%s: %s" % (pid, fin))
    return code


RULES = {
    "ref": "every feasible path of the current code, as a symbolic effect (return value, writes, bytes read and written), must equal the reviewed reference effect on every pair of overlapping path conditions",
    "io": "on every path on which one reader or writer operation fails, the entry point must return an error",
    "panics": "no explicit panic, failed unwrap, out-of-range index or division by zero is reachable under a satisfiable path condition over the input bytes",
}


def write_evidence(pid, tier, seed, mode, results, notes, dropped, viol, wall):
    cov = dict(
        explanation="static analysis of the compiler's intermediate representation of /repo, from the entry points listed in per_root; nothing executed; every input of those entry points is symbolic. " + RULES[mode],
        rule=RULES[mode],
        entry_points=len(results),
        entry_points_decided=sum(r["status"] != "undecided" for r in results),
        functions_analysed=len({f for r in results for f in r["functions"]}),
        abstract_steps=sum(r["steps"] for r in results),
        paths=sum(r["paths"] for r in results),
        undecided=[dict(root=r["root"], why=r["notes"][:2]) for r in results if r["status"] == "undecided"],
        dropped_entry_points=dropped,
        per_root=[{k: r[k] for k in ("root", "status", "paths", "reference_paths", "paths_identical", "path_pairs_compared", "failure_paths", "panic_sites", "valuations", "steps", "seconds") if k in r} for r in results],
        functions=sorted({f for r in results for f in r["functions"]})[:200],
        samples=[dict(entry_point=r["root"], at=r.get("where"), paths=r["paths"]) for r in results[:3]],
        notes=notes,
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(wall, 3), violations=len(viol),
              assumptions=["the reference models of library functions in harness/src/model.rs and the primitives in vp/prims.py describe the standard library", "integer overflow wraps or panics identically in reference and code"])
    json.dump(ev, open(os.path.join(HERE, "evidence", "%s.json" % pid), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
