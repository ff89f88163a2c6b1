"""Builds the harness from /repo, replays cases through it and has TLC judge the recorded events."""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


def tlc(module, cfg, meta, workers=1, xmx="2g", env=None, timeout=800, extra=()):
    """Runs TLC in SPEC; returns (exit code, output)."""
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + xmx, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s %s" % (module, cfg))
    return r.returncode, r.stdout + r.stderr


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def model_check(module, cfg, work, workers=2, xmx="3g", timeout=800, expect_violation=False):
    """Exhaustive check of a state machine of the specification."""
    t0 = time.time()
    rc, out = tlc(module, cfg, os.path.join(work, "mc_" + cfg), workers, xmx, timeout=timeout)
    m = STATS.findall(out)
    if expect_violation:
        if rc != 12 and rc != 13:
            raise ToolError("%s %s: the known-bad design was not refuted\n%s" % (module, cfg, out[-3000:]))
    elif rc != 0 or not m:
        raise ToolError("%s %s: model checking failed\n%s" % (module, cfg, out[-4000:]))
    g, d = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return {"module": module, "config": cfg, "transitions": g, "states": d, "wall_s": round(time.time() - t0, 1),
            "refuted": expect_violation}


def printed(out):
    """JSON values a TLC run printed with the prefix @@"""
    for line in out.splitlines():
        if line.startswith('"@@'):
            s = json.loads(line)
            yield s[2:]
        elif line.startswith("@@"):
            yield line[2:]


def generate(module, cfg, work, xmx="3g", timeout=800, env=None):
    rc, out = tlc(module, cfg, os.path.join(work, "gen_" + cfg), 1, xmx, timeout=timeout, env=env)
    if rc != 0:
        raise ToolError("%s %s: generation failed\n%s" % (module, cfg, out[-4000:]))
    m = STATS.findall(out)
    return [json.loads(x) for x in printed(out)], (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


CFGS = {"md": (["mdns", "dnssec"], {"m": True, "d": True}), "0": ([], {"m": False, "d": False}),
        "m": (["mdns"], {"m": True, "d": False}), "d": (["dnssec"], {"m": False, "d": True})}


def build(name, target):
    feats, _ = CFGS[name]
    env = dict(os.environ)
    env["RUSTFLAGS"] = "--cfg maybe_dns_verif"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_TARGET_DIR"] = os.path.join(target, name)
    cmd = ["cargo", "build", "--offline", "--quiet"] + (["--features", ",".join(feats)] if feats else [])
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), capture_output=True, text=True, env=env)
    if r.returncode:
        raise ToolError("building the harness (%s) failed:\n%s" % (name, r.stderr[-6000:]))
    return os.path.join(target, name, "debug", "mdharness")


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(binary, cases, out, limit_ms=8000):
    """Runs the cases (list of JSON strings) through the implementation, events go to file out."""
    cpath = out + ".cases"
    with open(cpath, "w") as f:
        for c in cases:
            f.write(c + "\n")
    open(out, "w").close()
    skip, lost = 0, 0
    while True:
        r = subprocess.run([binary, cpath, out, str(skip), str(limit_ms)], capture_output=True, text=True, preexec_fn=_limits)
        if r.returncode == 0:
            break
        with open(out) as f:
            done = sum(1 for _ in f)
        if done >= len(cases):
            break
        c = json.loads(cases[done])
        if "unknown case kind" in r.stderr:
            raise ToolError("harness: " + r.stderr[-500:])
        ph = ""
        if r.returncode == 77:
            try:
                ph = open(out + ".cur").read().strip()
            except OSError:
                pass
            o = {"hang": "no result after %d ms" % limit_ms, "ph": ph}
        else:
            o = {"crash": "process ended with %d" % r.returncode, "ph": ph}
        ev = {"i": done, "x": 1, "k": c["k"], "g": c.get("g", ""), "cf": c["cf"], "c": c["c"], "o": o}
        with open(out, "a") as f:
            f.write(json.dumps(ev) + "\n")
        lost += 1
        skip = done + 1
        if lost > 3:
            break
    os.remove(cpath)
    with open(out) as f:
        return sum(1 for _ in f)


def judge(path, n, work):
    """TLC decides every event of the file; returns [(line, [findings])]."""
    if n == 0:
        return []
    rc, out = tlc("Trace.tla", "Trace.cfg", path + ".meta", 1, "3g", env={"EVENTS": path}, timeout=850)
    res, done = [], None
    for s in printed(out):
        if s.startswith("DONE "):
            done = int(s[5:])
        else:
            v = json.loads(s)
            res.append((v["l"], v["r"]))
    shutil.rmtree(path + ".meta", ignore_errors=True)
    if rc != 0 or done != n:
        raise ToolError("trace validation did not finish (%s of %d events)\n%s" % (done, n, "\n".join(x for x in out.splitlines() if not x.startswith('"@@'))[-3000:]))
    return res


def shards(cases, k):
    """Deals cases to k shards of about equal size."""
    order = sorted(range(len(cases)), key=lambda i: -len(cases[i]))
    out, load = [[] for _ in range(k)], [0] * k
    for i in order:
        j = load.index(min(load))
        out[j].append(i)
        load[j] += len(cases[i]) + 200
    return [sorted(x) for x in out if x]


def replay_and_judge(bins, cases, work, limit_ms=8000):
    """cases: {config name: [case dict]}. Returns (events, findings) where findings is a list of
    {event, r}."""
    jobs = []
    tot = sum(len(v) for v in cases.values())
    for name, cs in cases.items():
        if not cs:
            continue
        lines = [json.dumps(dict(c, cf=CFGS[name][1]), separators=(",", ":")) for c in cs]
        k = max(1, min(NCPU, round(NCPU * len(cs) / tot + 0.4), len(cs)))
        for j, idx in enumerate(shards(lines, k)):
            jobs.append((name, [lines[i] for i in idx], os.path.join(work, "ev_%s_%d" % (name, j))))

    def one(job):
        name, lines, path = job
        n = replay(bins[name], lines, path, limit_ms)
        res = judge(path, n, work)
        out = []
        if res:
            with open(path) as f:
                evs = f.readlines()
            out = [(json.loads(evs[l - 1]), r) for l, r in res]
        return n, out

    total, found = 0, []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for n, out in ex.map(one, jobs):
            total += n
            found += out
    return total, found
