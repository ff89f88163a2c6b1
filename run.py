#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--seed N] | --replay FILE | --list

Decides one property: checks the state machines of the specification the property rests on, has the
specification generate behaviours, replays them (and seeded ones) against the implementation built from
/repo's working tree, and has TLC check every recorded event against the specification."""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import pipeline as P  # noqa: E402
import plan  # noqa: E402
import suites as S  # noqa: E402

LEVEL_ASSUME = [
    "TLC, the Java runtime, rustc and the harness (which builds values through the public API and records what it sees) are trusted",
    "the specification is exhaustively checked within the stated bounds only; beyond them conformance is by generated and seeded cases",
]


def known_tags():
    """Findings recorded in known_findings.txt: (property, tag) -> text. Lines 'fixed:' suppress nothing."""
    out = {}
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding:"):
                w = line.split(None, 3)
                out[(w[1].split("=")[1], w[2].split("=")[1])] = w[3].strip()
    return out


def run(pid, tier, seed):
    t0 = time.time()
    pl = plan.PLAN[pid]
    work = os.path.join(ROOT, "work", "%s_%s_%d" % (pid, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    target = os.path.join(ROOT, "work", "target")
    big = tier == "thorough"
    models = pl["mc"] + (pl.get("mcT", []) if big else [])
    bads = pl.get("bad", [])
    gens = dict(pl.get("gen", {}))
    if big:
        gens.update(pl.get("genT", {}))
    cfgs = ["md", "0"] + (["m", "d"] if big else [])
    stat = {"models": [], "gens": {}}
    times = {}
    try:
        with cf.ThreadPoolExecutor(10) as ex:
            bf = {c: ex.submit(P.build, c, target) for c in cfgs}
            gf = {k: ex.submit(P.generate, v[0], v[1] + ".cfg", work, "4g" if big else "3g") for k, v in gens.items()}
            mf = [ex.submit(P.model_check, m, c + ".cfg", work, 2, "6g" if big else "3g") for m, c in models]
            mf += [ex.submit(P.model_check, m, c + ".cfg", work, 1, "2g", 800, True) for m, c in bads]
            gen = {}
            for k, f in gf.items():
                gen[k], st = f.result()
                stat["gens"][k] = {"values": len(gen[k]), "states": st[1]}
            times["gen"] = time.time() - t0
            bins = {c: f.result() for c, f in bf.items()}
            times["build"] = time.time() - t0
            # cases
            cases, per = {}, {}
            rounds = 1
            for c in cfgs:
                x = S.X(c, P.CFGS[c][1], seed * 1000 + int(pid[1:]) * 10 + cfgs.index(c), gen, tier, bins[c])
                cs = []
                for name, nq, nt in pl["suites"]:
                    n = nt if big else nq
                    if not n:
                        continue
                    if c in ("m", "d"):
                        n = max(1, n // 4)
                    got = getattr(S, name)(x, n)
                    per[name] = per.get(name, 0) + len(got)
                    cs += got
                cases[c] = cs
            times["cases"] = time.time() - t0
            total, found = P.replay_and_judge(bins, cases, work)
            times["judge"] = time.time() - t0
            for f in mf:
                stat["models"].append(f.result())
    except P.ToolError as e:
        print("TOOL ERROR: %s" % e, file=sys.stderr)
        return 2
    finally:
        for fn in os.listdir(work):
            p = os.path.join(work, fn)
            shutil.rmtree(p) if os.path.isdir(p) else None
    known = known_tags()
    viol, kf, other, tool = [], {}, 0, 0
    for ev, rs in found:
        for r in rs:
            if r["p"] == "TOOL":
                tool += 1
                print("TOOL ERROR: %s (%s)" % (r["w"], ev["k"]), file=sys.stderr)
            elif r["p"] != pid:
                other += 1
            elif r["k"] and (pid, r["k"]) in known:
                kf.setdefault(r["k"], [0, r["w"]])[0] += 1
            else:
                viol.append((ev, r))
    rc = 0
    for tag, (n, w) in sorted(kf.items()):
        print("KNOWN-FINDING: property=%s %s %s (%d cases)" % (pid, tag, known[(pid, tag)], n))
    whats = {}
    for ev, r in viol:
        whats.setdefault(r["w"], []).append(ev)
    if viol:
        rc = 1
        rdir = os.path.join(ROOT, "work", "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (w, evs) in enumerate(sorted(whats.items())[:10]):
            ev = min(evs, key=lambda e: len(json.dumps(e)))
            path = os.path.join(rdir, "%s_%d.json" % (pid, i))
            with open(path, "w") as f:
                json.dump({"property": pid, "what": w, "events": len(evs), "event": ev}, f)
            print("%s: %s (%d events, kind %s)" % (pid, w, len(evs), ev["k"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
    elif tool:
        rc = 2
    states = sum(m["states"] for m in stat["models"])
    trans = sum(m["transitions"] for m in stat["models"])
    allcases = [c for v in cases.values() for c in v]
    step = max(1, len(allcases) // 5)
    samples = [json.dumps(c)[:400] for c in allcases[::step][:5]]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": plan.LEVEL[pid],
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": total,
            "models": stat["models"], "generated_from_spec": stat["gens"], "cases_per_suite": per,
            "feature_configurations": cfgs, "samples": samples,
            "known_findings_seen": {k: v[0] for k, v in kf.items()},
            "events_deviating_in_other_properties": other,
        },
        "wall_s": round(time.time() - t0, 1), "violations": len(viol), "assumptions": LEVEL_ASSUME + pl.get("assume", []),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d model states, %d events validated, %d violations, %.1f s %s" % (
        pid, tier, states, total, len(viol), time.time() - t0, " ".join("%s=%.1f" % kv for kv in times.items())))
    shutil.rmtree(work, ignore_errors=True)
    return rc


def replay(path):
    with open(path) as f:
        d = json.load(f)
    ev = d["event"]
    name = next(k for k, v in P.CFGS.items() if v[1] == ev["cf"])
    target = os.path.join(ROOT, "work", "target")
    work = os.path.join(ROOT, "work", "replaying_%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        b = P.build(name, target)
        _, found = P.replay_and_judge({name: b}, {name: [{"k": ev["k"], "g": ev["g"], "c": ev["c"]}]}, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for e, rs in found:
        print(json.dumps(e["o"])[:2000])
        for r in rs:
            print("%s %s %s" % (r["p"], r["k"], r["w"]))
    hit = any(r["p"] == d["property"] and r["w"] == d["what"] for _, rs in found for r in rs)
    print("reproduced" if hit else "not reproduced")
    return 1 if hit else 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument("id", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a.add_argument("--replay")
    a.add_argument("--prepare", action="store_true")
    x = a.parse_args()
    if x.prepare:
        try:
            with cf.ThreadPoolExecutor(2) as ex:
                print(list(ex.map(lambda c: P.build(c, os.path.join(ROOT, "work", "target")), ["md", "0"])))
        except P.ToolError as e:
            print("TOOL ERROR: %s" % e, file=sys.stderr)
            return 2
        return 0
    if x.replay:
        return replay(x.replay)
    if x.id not in plan.PLAN:
        print("unknown property", file=sys.stderr)
        return 2
    try:
        return run(x.id, x.tier, x.seed)
    except Exception as e:  # a failing tool is no verdict
        import traceback
        traceback.print_exc()
        print("TOOL ERROR: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
