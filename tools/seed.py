"""python3 tools/seed.py FILE [id...]: writes /verif/seeded/<id>/ from the entries of FILE and confirms each in a scratch copy.

FILE defines S = [(id, property, needs, what_it_breaks, [(path, old, new), ...], main_rs), ...]"""
import importlib.util, json, os, shutil, subprocess, sys

W = "/tmp/vpseed"
DEMO = '''#!/bin/bash
# exit 0: the property holds on the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/vpdemo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<T
[package]
name = "vpdemo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
redscript = { path = "$repo/core" }
redscript-decompiler = { path = "$repo/decompiler" }
T
grep -q bpaf "$here/main.rs" && { echo 'bpaf = "0.7"' >> "$t/Cargo.toml"; export RUSTUP_TOOLCHAIN=1.77.2; }
cd "$t" || exit 2
export RUSTFLAGS="--cap-lints allow" VPREPO="$repo" CARGO_TARGET_DIR="$t/target"
cargo build --offline --quiet 2>"$t/log" || { rm -f Cargo.lock; cargo build --offline --quiet 2>"$t/log" || { tail -40 "$t/log"; exit 3; }; }
timeout 100 "$t/target/debug/vpdemo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    sp = importlib.util.spec_from_file_location("s", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    names = sys.argv[2:]
    shutil.rmtree(W, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", W])
    for id_, prop, needs, breaks, edits, demo in m.S:
        if names and id_ not in names:
            continue
        d = "/verif/seeded/" + id_
        os.makedirs(d, exist_ok=True)
        sh(["git", "checkout", "-q", "--", "."], cwd=W)
        open(d + "/main.rs", "w").write(getattr(m, "PRE", "") + demo)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        r0 = sh(["bash", d + "/demo.sh"], cwd=W)
        ok = True
        for path, old, new in edits:
            s = open(W + "/" + path).read()
            if s.count(old) != 1:
                print(id_, "edit applies", s.count(old), "times:", old[:60])
                ok = False
            open(W + "/" + path, "w").write(s.replace(old, new, 1))
        r1 = sh(["bash", d + "/demo.sh"], cwd=W)
        diff = sh(["git", "diff"], cwd=W).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        good = ok and r0.returncode == 0 and r1.returncode not in (0, 2, 3)
        print(id_, "OK" if good else "BAD", r0.returncode, r1.returncode)
        if not good:
            print(r0.stdout[-1500:], "\n--\n", r1.stdout[-1500:])
            shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)


main()
