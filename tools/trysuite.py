#!/usr/bin/env python3
"""trysuite.py SUITE N [--seed S] [--cf md,0] : runs one suite and prints every finding, whatever property it belongs to."""
import argparse, collections, json, os, shutil, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import pipeline as P, plan, suites as S
a = argparse.ArgumentParser()
a.add_argument("suite"); a.add_argument("n", type=int); a.add_argument("--seed", type=int, default=1); a.add_argument("--cf", default="md,0")
a.add_argument("--show", type=int, default=0)
x = a.parse_args()
work = os.path.join(ROOT, "work", "try_%d" % os.getpid())
os.makedirs(work)
allgen = {}
for v in plan.PLAN.values():
    allgen.update(v.get("gen", {}))


class Lazy(dict):
    def __missing__(self, k):
        m, c = allgen[k]
        self[k] = P.generate(m, c + ".cfg", work)[0]
        return self[k]


try:
    gen = Lazy()
    bins = {c: P.build(c, os.path.join(ROOT, "work", "target")) for c in x.cf.split(",")}
    cases = {c: getattr(S, x.suite)(S.X(c, P.CFGS[c][1], x.seed, gen, "quick", bins[c]), x.n) for c in x.cf.split(",")}
    t = time.time()
    tot, found = P.replay_and_judge(bins, cases, work)
    print("%s: %d events, %.1f s" % (x.suite, tot, time.time() - t))
    cnt = collections.Counter((r["p"], r["k"], r["w"]) for _, rs in found for r in rs)
    for k, v in sorted(cnt.items()):
        print(v, *k)
    for ev, rs in [f for f in found if any(not r["k"] for r in f[1])][:x.show]:
        print(json.dumps(ev["o"])[:600], json.dumps(ev)[:3000], rs)
finally:
    shutil.rmtree(work, ignore_errors=True)
