"""python3 tools/mutate.py FILE [name...]: apply each edit of FILE to a scratch copy of /repo, and list what the checks say.

FILE is Python defining M = [(name, kind, [(path, old, new), ...]), ...]; kind is 'bug' or 'same'."""
import importlib.util, json, os, subprocess, sys, multiprocessing as mp, time
sys.path.insert(0, os.environ.get("VPSRC", "/verif"))
W = os.environ.get("VPW", "/tmp/vpw")
os.makedirs(W, exist_ok=True)
os.environ["VP_REPO"] = W
if W != "/tmp/vpw":
    os.environ["VP_BUILD"] = W + ".build"
from vp import build, check
from vp.table import TABLE


# the properties to look at, comma-separated (all by default)
ONLY = [p for p in os.environ.get("VPP", "").split(",") if p]


def reset():
    subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "target", "/repo/", W + "/"], check=True)


def run_all():
    out = {}
    dropped = []
    for h in build.HARNESS:
        if not any(t.get("harness", "harness") == h and (not ONLY or p in ONLY) for p, t in TABLE.items()):
            continue
        check.PROG = None
        try:
            build.driver()
            path, d = build.facts(h)
        except build.BuildError as e:
            return {"build": str(e)}, []
        dropped += d
        check.PROG = check.Prog(path)
        check.FIELDS = check.known_fields()
        jobs = {}
        for p, t in TABLE.items():
            if ONLY and p not in ONLY:
                continue
            for r in t["roots"]:
                if t.get("harness", "harness") == h:
                    jobs.setdefault((r, t.get("mode", "ref")), []).append(p)
        first = [j for j in jobs if "::" in j[0]]
        keys = first + [j for j in jobs if j not in first]
        with mp.get_context("fork").Pool(int(os.environ.get("VPJ", "8"))) as pool:
            res = pool.map(check.task, keys, chunksize=1)
        for k, r in zip(keys, res):
            if r["status"] != "held":
                out[k] = r
    return out, dropped


def main():
    sp = importlib.util.spec_from_file_location("m", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    names = sys.argv[2:]
    verbose = "-v" in names
    names = [n for n in names if n != "-v"]
    for name, kind, edits in m.M:
        if names and name not in names:
            continue
        reset()
        bad = False
        for path, old, new in edits:
            f = os.path.join(W, path)
            s = open(f).read()
            if isinstance(old, int):
                ls = s.split("\n")
                print("   ", ls[old].strip()[:80], "  =>  ", new.strip()[:80])
                ls[old] = new
                open(f, "w").write("\n".join(ls))
                continue
            if s.count(old) < 1:
                print(name, "EDIT DOES NOT APPLY", old[:60])
                bad = True
                break
            open(f, "w").write(s.replace(old, new, 1))
        if bad:
            continue
        t = time.time()
        out, dropped = run_all()
        if "build" in out:
            print(name, kind, "BUILD", flush=True)
            continue
        v = {k: r for k, r in out.items() if r["status"] == "violated"}
        u = {k: r for k, r in out.items() if r["status"] == "undecided"}
        props = sorted({p for k in v for p in TABLE if k[0] in TABLE[p]["roots"] and k[1] == TABLE[p].get("mode", "ref")})
        ok = bool(v) if kind == "bug" else not v
        print("%-28s %-5s %s %s viol=%s undec=%s%s %.0fs" % (name, kind, "ok  " if ok else "MISS" if kind == "bug" else "FALSE ALARM", props, [k[0][-28:] + ("(structure %s)" % [r.get('valuations', {}).get(x) for x in ('tried', 'valid', 'agreed', 'paths_covered', 'paths_differing')] if any(x.get('by') for x in r['violations']) else '') for k, r in v.items()], [k[0][-28:] for k in u], " dropped=%s" % dropped if dropped else "", time.time() - t), flush=True)
        if verbose or not ok:
            for k, r in list((v if kind == "same" else u).items())[:6]:
                print("     ", k, [x["difference"][:900] for x in r["violations"]][:1], [n[:500] for n in r["notes"]][:2])


main()
