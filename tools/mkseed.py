#!/usr/bin/env python3
"""Create /verif/seeded/<id>/ from the definitions in tools/bugs_*.py.

For every definition: apply the edit to a scratch copy of /repo, check that it
compiles, that the existing tests pass and that the demonstration tells the two
trees apart; only then write the folder.  Usage: mkseed.py [id...]"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SCRATCH = "/tmp/seedwork"
DEMO = '''#!/bin/bash
# Exit 0 if the property holds for this demonstration, nonzero otherwise.
# Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
maybe-dns = { path = "$repo", features = [%(features)s] }
%(extra)s
[profile.dev]
debug = 0
TOML
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" timeout 280 cargo run --offline -q
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)

def load():
    bugs = []
    sys.path.insert(0, HERE)
    for f in sorted(glob.glob(HERE + "/bugs_[a-z].py")):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        bugs += m.BUGS
    return bugs

def baseline():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("passed", "pass", "tests", "stable"):
        if k in b:
            return set(b[k])
    return set(b)

def tests(tree):
    env = dict(os.environ, CARGO_TARGET_DIR=SCRATCH + "/target")
    ok = True
    out = ""
    for feat in ("--all-features", ""):
        r = sh(f"cargo test --workspace {feat} --no-fail-fast --offline -- --test-threads 8", cwd=tree, env=env)
        out += r.stdout
        ok = ok and r.returncode == 0
    return ok, out

def main():
    want = set(sys.argv[1:])
    os.makedirs(SCRATCH, exist_ok=True)
    tree = SCRATCH + "/tree"
    bad = 0
    for b in load():
        dst = f"{VERIF}/seeded/{b['id']}"
        if want and b["id"] not in want:
            continue
        if not want and os.path.exists(dst + "/patch.diff"):
            continue
        shutil.rmtree(tree, ignore_errors=True)
        sh(f"git clone -q /repo {tree}")
        shutil.rmtree(tree + "/target", ignore_errors=True)
        stage = SCRATCH + "/stage"
        shutil.rmtree(stage, ignore_errors=True)
        os.makedirs(stage)
        feats = ", ".join(f'"{x}"' for x in b.get("features", []))
        open(stage + "/demo.sh", "w").write(DEMO % dict(features=feats, extra=b.get("extra", "")))
        open(stage + "/main.rs", "w").write(b["demo"])
        # the demonstration on the unchanged tree
        r = sh(f"bash {stage}/demo.sh", cwd=tree)
        if r.returncode != 0:
            print(b["id"], "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:]); bad += 1; continue
        sh("git checkout -q -- . && git clean -qfd", cwd=tree)
        good = True
        for f, old, new in b["edits"]:
            s = open(f"{tree}/{f}").read()
            n = b.get("count", {}).get(f, 1)
            if s.count(old) < 1 or (n == 1 and s.count(old) != 1):
                print(b["id"], f, "match count", s.count(old)); good = False
                break
            open(f"{tree}/{f}", "w").write(s.replace(old, new))
        if not good:
            bad += 1; continue
        d = sh("git diff", cwd=tree).stdout
        # the original lines touched
        mine = 0
        ok, out = tests(tree)
        if not ok:
            print(b["id"], "TESTS FAIL", out[-1500:]); bad += 1; continue
        r = sh(f"bash {stage}/demo.sh", cwd=tree)
        if r.returncode == 0:
            print(b["id"], "DEMO DOES NOT FAIL WITH PATCH"); bad += 1; continue
        if "could not compile" in r.stdout:
            print(b["id"], "DEMO DOES NOT COMPILE", r.stdout[-1500:]); bad += 1; continue
        os.makedirs(dst, exist_ok=True)
        open(dst + "/patch.diff", "w").write(d)
        for f in ("demo.sh", "main.rs"):
            shutil.copy(stage + "/" + f, dst + "/" + f)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(dst + "/meta.json", "w"), indent=1)
        print(b["id"], "ok", (r.stdout.strip().splitlines() or [""])[-1][:150], flush=True)
    shutil.rmtree(tree, ignore_errors=True)
    return bad

sys.exit(main())
