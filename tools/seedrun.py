#!/usr/bin/env python3
"""Apply every planted change to /repo, run the check of its property (or the
properties named with --props), undo it.  Usage: seedrun.py [--props C01,C02|all] [--tier quick] [id...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
props, tier, ids = None, "quick", []
while args:
    a = args.pop(0)
    if a == "--props": props = args.pop(0)
    elif a == "--tier": tier = args.pop(0)
    else: ids.append(a)
allp = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for i in sorted(os.listdir(V + "/seeded")):
    if ids and i not in ids: continue
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    ps = [meta["property"]] if props is None else (allp if props == "all" else props.split(","))
    r = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if r.returncode: print(i, "patch does not apply"); continue
    try:
        for p in ps:
            t = time.time()
            r = subprocess.run(["python3", "run.py", p, "--tier", tier], cwd=V, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{i:28s} {p} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and line else 'missed' if r.returncode == 0 else 'TOOL ' + r.stdout[-300:]} {time.time()-t:.0f}s", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
