"""Writes MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import plan

NOTE = {
    "C01": "totality of the parser machine and termination of name reading are model checked on bounded messages; the code is bound by replaying adversarial, mutated and generated messages with panic, hang and memory monitors",
    "C17": "the signature input is model checked for injectivity; that signatures can not be forged is assumed of the algorithms; replay signs and tampers with real keys of all nine algorithms",
    "C18": "hash functions are taken from ring in the harness; the specification decides what is hashed",
}
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --prepare",
    "hooks": {
        "guard": "cfg(maybe_dns_verif)",
        "enable": "RUSTFLAGS='--cfg maybe_dns_verif' (set by run.py when it builds /verif/harness)",
        "source_commits": ["60c6cc91861869d5cad5f098e7861435e52441f3", "34d4dd7a34823128ca3b73ecf543159295e53bd2"],
    },
    "checks": [],
    "not_applicable": [],
    "notes": "TLA+ with TLC. run.py ID decides one property: it model checks the state machines of spec/ the property rests on, generates behaviours from them, replays those and seeded cases against /repo built in its feature configurations, and has TLC validate every recorded event against spec/Judge.tla. Known findings: known_findings.txt.",
}
for p in sorted(plan.PLAN):
    m["checks"].append({
        "property": p,
        "quick_cmd": "python3 run.py %s --tier quick" % p,
        "thorough_cmd": "python3 run.py %s --tier thorough" % p,
        "technique": "TLA+ specification checked with TLC (%s); behaviours generated from it and seeded cases replayed into the real code; recorded events validated against the specification by TLC" % ", ".join(c for _, c in plan.PLAN[p]["mc"]),
        "level": plan.LEVEL[p],
        "level_note": NOTE.get(p, "exhaustive on the specification within the bounds of the TLC configurations; conformance of the code is checked on generated and seeded executions, not proved"),
    })
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
