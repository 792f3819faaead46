"""Builds the extractor and extracts MIR facts of /repo's current working tree."""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD") or os.path.join(VERIF, ".build")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def toolchain():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def driver():
    d = os.path.join(VERIF, "driver")
    out = os.path.join(d, "target", "release", "vp-driver")
    src = [os.path.join(d, "src", "main.rs"), os.path.join(d, "Cargo.toml")]
    if not os.path.exists(out) or any(os.path.getmtime(s) > os.path.getmtime(out) for s in src):
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
            env.pop(k, None)
        r = sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=d, env=env)
        if r.returncode or not os.path.exists(out):
            raise SystemExit("extractor build failed:\n" + r.stdout[-3000:])
        os.utime(out)
    return out


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(open(d, "rb").read())
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build", "__pycache__"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".txt")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


# the crates that name the analysis roots, and what of /repo each of them reads
HARNESS = {
    "harness": ["core", "decompiler"],
    "optsharness": ["scc/cli/src/opts.rs"],
}


def facts(name="harness"):
    """-> (path of the facts file, list of analysis roots that do not compile against the tree)"""
    drv = driver()
    src = os.path.join(VERIF, name)
    common = os.path.join(VERIF, "harness")
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash([src, common, os.path.join(VERIF, "driver", "src")] + [os.path.join(REPO, d) for d in HARNESS[name]])
    out = os.path.join(BUILD, "facts-%s-%s.jsonl" % (name, key))
    dropf = out + ".dropped"
    if os.path.exists(out) and os.path.exists(dropf):
        return out, open(dropf).read().split()
    for f in os.listdir(BUILD):
        if f.startswith("facts-%s-" % name):
            os.unlink(os.path.join(BUILD, f))
    hd = os.path.join(BUILD, name)
    shutil.rmtree(hd, ignore_errors=True)
    shutil.copytree(src, hd, ignore=shutil.ignore_patterns("target"))
    for f in ("src/model.rs", "deep.txt", "redirect.txt"):
        if not os.path.exists(os.path.join(hd, f)):
            shutil.copy(os.path.join(common, f), os.path.join(hd, f))
    for f in ("Cargo.toml", "src/lib.rs"):
        text = open(os.path.join(hd, f)).read().replace("/repo/", REPO.rstrip("/") + "/")
        open(os.path.join(hd, f), "w").write(text)
    env = dict(os.environ)
    env.pop("RUSTC_WRAPPER", None)
    env["LD_LIBRARY_PATH"] = toolchain() + "/lib"
    env["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off --cap-lints allow"
    env["RUSTC_WORKSPACE_WRAPPER"] = drv
    env["VP_CRATE"] = "vp_harness"
    env["VP_OUT"] = out + ".tmp"
    env["VP_DEEP"] = open(os.path.join(hd, "deep.txt")).read()
    env["VP_REDIRECT"] = open(os.path.join(hd, "redirect.txt")).read()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "htarget")
    # cargo judges freshness by file times; a tree restored with old times must still be compiled again
    for f in glob.glob(os.path.join(BUILD, "htarget", "debug", ".fingerprint", "*")) + glob.glob(os.path.join(BUILD, "htarget", "debug", "build", "*")):
        if os.path.basename(f).startswith(("redscript", "vp")):
            shutil.rmtree(f, ignore_errors=True)
    dropped = []
    lib = os.path.join(hd, "src", "lib.rs")
    for attempt in range(12):
        os.utime(lib)
        r = sh(["cargo", "+nightly", "check", "--offline"], cwd=hd, env=env)
        if r.returncode == 0 and os.path.exists(out + ".tmp"):
            break
        bad = set(int(m) for m in re.findall(r"--> src/lib\.rs:(\d+):", r.stdout))
        lines = open(lib).read().split("\n")
        n = 0
        for i in bad:
            l = lines[i - 1]
            m = re.match(r"\s*(?:pub fn (\w+)|(dec_\w+) enc_\w+ .*;|use )", l)
            if m and not l.lstrip().startswith("//"):
                lines[i - 1] = "// dropped: " + l
                # multi-line bodies end at a lone brace
                if l.rstrip().endswith("{"):
                    j = i
                    while j < len(lines) and lines[j].rstrip() != "}":
                        lines[j] = "// " + lines[j]
                        j += 1
                    if j < len(lines):
                        lines[j] = "// }"
                dropped.append(m.group(1) or m.group(2) or l.strip())
                n += 1
        if not n:
            sys.stdout.write(r.stdout[-4000:])
            raise BuildError("the tree does not build with the analysis roots")
        open(lib, "w").write("\n".join(lines))
    else:
        raise BuildError("too many incompatible analysis roots")
    os.rename(out + ".tmp", out)
    open(dropf, "w").write("\n".join(dropped))
    return out, dropped


class BuildError(Exception):
    pass


if __name__ == "__main__":
    driver()
    try:
        f, d = facts()
        print("facts:", f, os.path.getsize(f), "dropped:", d)
    except BuildError as e:
        print("build:", e)
