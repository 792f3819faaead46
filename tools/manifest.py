import json, sys
sys.path.insert(0, "/verif")
from vp.table import TABLE

NOTE = ("Covers every input of the listed entry points: all path conditions and values are symbolic, loops are summarised for every "
        "iteration count. A difference is reported only when both sides are understood by the term theory; otherwise the entry point "
        "is listed as undecided in the evidence and no alarm is raised. Trusted: rustc's MIR, the library models in harness/src/model.rs "
        "and vp/prims.py, and the reviewed reference effects in spec/.")
TECH = {
    "ref": "abstract interpretation of MIR to path-sensitive symbolic effect summaries, compared with reference effects",
    "io": "interprocedural error-propagation dataflow over MIR with a failure injected at every I/O site",
    "panics": "interprocedural reachability of panic sites over MIR with interval path conditions",
}
NA = {
    "C90": "needs the semantics of two whole-program translators (decompiler and compiler) to be composed; no sound static argument in reach relates them, and the compiler crate is not part of the build here",
    "C91": "the crate that owns the backup logic (scc/lib) does not build offline here (missing dependencies), so there is no type-checked program to analyse; crash points also need the file system's semantics",
    "C92": "functional correctness of a compiler over all programs; the compiler crate is not part of the build here, so there is no MIR to analyse",
    "C93": "a quantitative bound over run-time sizes; recursion and hash tables put it beyond a sound static bound here",
    "C94": "the recursion is bounded by cursor positions that jump operands move in both directions, so no syntactic ranking exists; malformed backward jumps are a run-time quantity",
}
checks = []
for pid in sorted(TABLE):
    mode = TABLE[pid].get("mode", "ref")
    tech = TABLE[pid].get("technique") or TECH[mode]
    checks.append(dict(property=pid, quick_cmd="python3 -m vp.check " + pid, thorough_cmd="env VERIF_TIER=thorough python3 -m vp.check " + pid,
                       evidence_file="evidence/%s.json" % pid, technique=tech, level="other", level_note=NOTE))
m = dict(version=1, setup_cmd="python3 -m vp.build", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks in /repo. KNOWN_FINDINGS.md lists repaired defects. DESIGN.md describes the analysis.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
