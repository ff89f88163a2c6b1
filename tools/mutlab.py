#!/usr/bin/env python3
"""Mutation laboratory: how much of the code's behaviour do the quick checks see?

  mutlab.py prepare                 cases of all quick checks and what the unchanged tree answers
  mutlab.py list [FILE...]          mutants per file
  mutlab.py run [--jobs N] [--max N] [--seed S] [FILE...]   mechanical mutants of the non-test source
  mutlab.py patch PATCH...          the same for given patch files

A mutant that compiles and passes the existing tests is run through the cases of all checks; events that
differ from those of the unchanged tree are judged by the specification (Trace.tla) exactly as in a check.
Everything lives under /tmp/mutlab; /repo is only read."""
import concurrent.futures as cf, collections, hashlib, json, os, random, re, shutil, subprocess, sys, threading, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/lib")
import pipeline as P, plan, suites as S
LAB = "/tmp/mutlab"
CF = ["md", "0"]

def sh(cmd, cwd=None, env=None, timeout=300):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, str(e.stdout)[-500:])

def digest(l):
    return hashlib.md5(re.sub(r'"(ms|kb)":\d+', "", l).encode()).hexdigest()

def prepare():
    os.makedirs(LAB + "/base", exist_ok=True)
    work = LAB + "/prep"; os.makedirs(work, exist_ok=True)
    gens = {}
    for v in plan.PLAN.values():
        gens.update(v.get("gen", {}))
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {k: ex.submit(P.generate, v[0], v[1] + ".cfg", work) for k, v in gens.items()}
        gen = {k: f.result()[0] for k, f in fs.items()}
    bins = {c: P.build(c, ROOT + "/work/target") for c in CF}
    jobs = []
    for pid, pl in plan.PLAN.items():
        for c in CF:
            x = S.X(c, P.CFGS[c][1], 1000 + int(pid[1:]) * 10 + CF.index(c), gen, "quick")
            cs = []
            for name, nq, nt in pl["suites"]:
                if nq: cs += getattr(S, name)(x, nq)
            jobs.append((pid, c, [json.dumps(dict(k, cf=P.CFGS[c][1]), separators=(",", ":")) for k in cs]))
    def one(j):
        pid, c, lines = j
        p = "%s/base/%s_%s" % (LAB, pid, c)
        open(p + ".in", "w").write("".join(l + "\n" for l in lines))
        t = time.time()
        hs = None
        for _ in range(9):
            n = P.replay(bins[c], lines, p + ".ev")
            h2 = [digest(l) for l in open(p + ".ev")]
            hs = h2 if hs is None else [a if a == b else "" for a, b in zip(hs, h2)]      # "": varies from run to run
        json.dump(hs, open(p + ".h", "w"))
        os.remove(p + ".ev")
        return pid, c, n, time.time() - t
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, jobs): print(*r)
    shutil.rmtree(work)

# ---- mutants -------------------------------------------------------------------------------------------
def code_lines(path):
    out = []
    for i, l in enumerate(open(path).read().split("\n")):
        if l.strip().startswith("#[cfg(test)]"): break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or s.startswith("///"): continue
        out.append((i, l))
    return out

SWAPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=])>(?![=>])(?=\s)", ">="), (r"(?<!<)<(?![=<])(?=\s)", "<="), (r"==", "!="), (r"!=", "=="),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"&&", "||"), (r"\|\|(?= )", "&&"), (r"<<", ">>"), (r">> ", "<< "), (r" & ", " | "), (r" \| ", " & "),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"as usize", "as u8 as usize"), (r"as u16\b", "as u8 as u16"), (r"as u32\b", "as u16 as u32"),
         (r"to_be_bytes", "to_le_bytes"), (r"from_be_bytes", "from_le_bytes"), (r"extract_u16\(", "extract_u8("), (r"extract_u32\(", "extract_u16("),
         (r"\.\.=", ".."), (r"\+=", "-="), (r"if !", "if "), (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".len() > 3"), (r"!(?=[A-Z])", ""),
         (r"\|=", "="), (r"peek_bytes", "extract_bytes"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()")]

def mutants(path):
    rel = os.path.relpath(path, "/repo")
    src = open(path).read().split("\n")
    cl = code_lines(path)
    out = []
    def add(i, new, what):
        if new != src[i]: out.append((rel, i, [src[i]], [new], what))
    idx = {i for i, _ in cl}
    for i, l in cl:
        code = l.split(" // ")[0]
        if re.match(r"\s*(pub )?(fn|struct|enum|impl|const|trait|mod|type)\b", code) and not code.strip().startswith("const") and "const " not in code:
            continue
        for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f]+|0b[01_]+|\d[\d_]*)(?![\w.]|_)", code):
            t = m.group(1)
            try: v = int(t.replace("_", ""), 0)
            except ValueError: continue
            for d in (random.Random(l).choice((1, -1)),):
                if v + d >= 0: add(i, l[:m.start(1)] + str(v + d) + l[m.end(1):], "%s->%d" % (t, v + d))
        for pat, rep in SWAPS:
            for m in re.finditer(pat, code):
                add(i, l[:m.start()] + rep + l[m.end():], "%s->%s" % (m.group(0), rep))
        s = code.strip()
        if s.endswith(";") and not s.startswith(("let ", "return", "}", "const ", "type ", "pub ", "break", "continue")) and s.count("(") == s.count(")"):
            add(i, re.match(r"\s*", l).group(0) + "();", "drop " + s[:50])
        if i + 1 in idx and s.endswith((";", ",")) and src[i + 1].strip().endswith((";", ",")) and src[i + 1].split()[:1] != ["}"] \
           and re.match(r"\s*", l).group(0) == re.match(r"\s*", src[i + 1]).group(0) and not s.startswith(("pub ", "///")) and "=>" not in s and l != src[i + 1]:
            out.append((rel, i, [src[i], src[i + 1]], [src[i + 1], src[i]], "swap with next"))
    return out

# ---- running -------------------------------------------------------------------------------------------
class Worker:
    def __init__(self, n):
        self.d = "%s/w%d" % (LAB, n)
        shutil.rmtree(self.d, ignore_errors=True); os.makedirs(self.d)
        sh("git clone -q /repo %s/repo && cp /repo/Cargo.lock %s/repo/ 2>/dev/null; cp -a %s/harness %s/harness" % (self.d, self.d, ROOT, self.d))
        t = self.d + "/harness/Cargo.toml"
        s = open(t).read().replace('path = "/repo"', 'path = "%s/repo"' % self.d); open(t, "w").write(s)
        self.tgt = self.d + "/target"; os.makedirs(self.tgt)
        sh("cp -a %s/work/target/md %s/work/target/0 %s/" % (ROOT, ROOT, self.tgt))
    def build(self, c):
        env = dict(os.environ, RUSTFLAGS="--cfg maybe_dns_verif", CARGO_TARGET_DIR=self.tgt + "/" + c)
        f = P.CFGS[c][0]
        r = sh("cargo build --offline -q " + ("--features " + ",".join(f) if f else ""), self.d + "/harness", env)
        return r
    def tests(self):
        env = dict(os.environ, CARGO_TARGET_DIR=self.d + "/tt")
        for f in ("--all-features", ""):
            r = sh("cargo test %s --offline --no-fail-fast -q" % f, self.d + "/repo", env, 120)
            if r.returncode: return False
        return True
    def reset(self):
        sh("git checkout -q -- .", self.d + "/repo")
    def examine(self, quick=True):
        """returns (status, {property: [texts]})"""
        for c in CF:
            r = self.build(c)
            if r.returncode: return "nocompile", r.stdout[-300:]
        if not self.tests(): return "tests", None
        ev, out = [], self.d + "/ev"
        got, fresh, sets = collections.defaultdict(set), 0, [(p, c) for p in plan.PLAN for c in CF]
        random.shuffle(sets)
        for j, (pid, c) in enumerate(sets):
            b = "%s/base/%s_%s" % (LAB, pid, c)
            lines = open(b + ".in").read().split("\n")[:-1]
            hs = json.load(open(b + ".h"))
            P.replay("%s/%s/debug/mdharness" % (self.tgt, c), lines, out, 4000)
            k = 0
            with open(out) as f:
                for i, l in enumerate(f):
                    if i >= len(hs) or (hs[i] and digest(l) != hs[i]):
                        e = json.loads(l)
                        if k < (12 if e["k"] == "sign" else 40) and len(l) < 60000:
                            e["P"] = pid; ev.append(e); k += 1
            os.remove(out)
            if k > 0: fresh += 1
            if ev and (fresh >= 3 or j + 1 == len(sets)):
                self.judge(ev, got)
                ev, fresh = [], 0
                if any(not k.startswith("~") for k in got): break
        if not got and not ev: return "same", {}
        return "diff", {k: sorted(v)[:3] for k, v in got.items()}
    def judge(self, ev, got):
        path = self.d + "/judge"
        with open(path, "w") as f:
            for i, e in enumerate(ev):
                e["i"] = i; f.write(json.dumps({k: v for k, v in e.items() if k != "P"}) + "\n")
        res = P.judge(path, len(ev), self.d)
        base = json.load(open(LAB + "/known.json"))
        got["~seen"].add("%d events differ" % len(ev))
        for l, rs in res:
            p = ev[l - 1]["P"]
            for r in rs:
                if r["p"] == p and not (r["k"] and [p, r["k"]] in base): got[p].add(r["w"])
                elif r["p"] != "TOOL" and r["p"] != p and not r["k"]: got["~" + r["p"]].add(r["w"])
                elif r["p"] == "TOOL": got["TOOL"].add(r["w"])

def save_known():
    k = []
    for line in open(ROOT + "/known_findings.txt"):
        if line.startswith("finding:"):
            w = line.split(None, 3); k.append([w[1].split("=")[1], w[2].split("=")[1]])
    json.dump(k, open(LAB + "/known.json", "w"))

def pool(items, jobs, apply, label):
    save_known()
    ws = [Worker(n) for n in range(jobs)]
    free = list(ws); lock = threading.Lock()
    log = open("%s/results_%d.jsonl" % (LAB, os.getpid()), "a")
    def one(it):
        with lock: w = free.pop()
        try:
            w.reset()
            if not apply(w, it): return it, "noapply", None
            t = time.time()
            try: st, r = w.examine()
            except Exception as e: st, r = "error", repr(e)[-1500:]
            return it, st, r
        finally:
            with lock: free.append(w)
    cnt = collections.Counter()
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in cf.as_completed([ex.submit(one, it) for it in items]):
            it, st, r = f.result()
            own = [k for k in r if not k.startswith("~") and k != "TOOL"] if isinstance(r, dict) else []
            if st == "diff" and not own: st = "UNJUDGED"
            if st == "same": st = "SURVIVED"
            cnt[st] += 1
            log.write(json.dumps({"it": it, "st": st, "r": r}) + "\n"); log.flush()
            if st not in ("nocompile", "tests", "diff"):
                print(st, label(it), ",".join(sorted(own)), ("" if st == "diff" else json.dumps(r)[:400]), flush=True)
    print(dict(cnt), log.name)
    for w in ws: shutil.rmtree(w.d, ignore_errors=True)

def main():
    a = sys.argv[1:]; cmd = a.pop(0)
    opt = {"--jobs": 7, "--max": 10**9, "--seed": 1}
    while a and a[0].startswith("--"): k = a.pop(0); opt[k] = int(a.pop(0))
    if cmd == "prepare": return prepare()
    if cmd == "patch":
        return pool(a, min(opt["--jobs"], len(a)), lambda w, p: sh("git apply %s" % os.path.abspath(p), w.d + "/repo").returncode == 0, lambda p: p)
    files = [os.path.join("/repo", f) for f in a] or sorted(sum([[os.path.join(d, f) for f in fs if f.endswith(".rs")] for d, _, fs in os.walk("/repo/src")], []))
    ms = sum([mutants(f) for f in files], [])
    if cmd == "list":
        c = collections.Counter(m[0] for m in ms)
        for k, v in sorted(c.items()): print(v, k)
        print(len(ms)); return
    r = random.Random(opt["--seed"]); r.shuffle(ms); ms = ms[:opt["--max"]]
    def apply(w, m):
        rel, i, old, new, _ = m
        p = w.d + "/repo/" + rel
        s = open(p).read().split("\n")
        if s[i:i + len(old)] != old: return False
        s[i:i + len(old)] = new
        open(p, "w").write("\n".join(s)); return True
    pool(ms, opt["--jobs"], apply, lambda m: "%s:%d %s | %s" % (m[0], m[1] + 1, m[4], m[2][0].strip()[:80]))

main()
