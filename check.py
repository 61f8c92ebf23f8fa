#!/usr/bin/env python3
"""check.py PROPERTY: decides one property from the current source of /repo, without running it.

Extracts the facts (type-checked MIR) of the tree with the compiler, analyses them, writes evidence/PROPERTY.json.
Exit 0: the property holds on everything analysed. Exit 1: violated, with a VIOLATION line. Exit 2: no answer."""
import fcntl
import json
import os
import resource
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(20000)
import core
import engine
from facts import Facts
from table import CHECKS

REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(HERE, ".work"))
FORMATS = [("serialize_rmp", "rmp_serde"), ("serialize_bincode", "bincode"), ("serialize_postcard", "postcard"), ("serialize_json", "serde_json")]


def extract(name, features, target):
    out = os.path.join(WORK, "facts", name + ".json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run([os.path.join(HERE, "extract.sh"), REPO, "bromine", features, out, target], capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write((r.stderr or "")[-3000:])
        raise SystemExit(no_answer("the source of %s does not compile with '%s'" % (REPO, features)))
    return out


def no_answer(why):
    print("ERROR: " + why)
    return 2


def all_configs():
    out = []
    for m in range(1, 16):
        on = [f for i, f in enumerate(FORMATS) if m >> i & 1]
        feats = ",".join(f[0] for f in on)
        name = "+".join(f[0].replace("serialize_", "") for f in on)
        path = extract("fmt_" + name, "--features encryption_layer," + feats, os.path.join(WORK, "facts-target"))
        out.append((name, path, set(f[1] for f in on)))
    return out


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    module, rules, opts = CHECKS[prop]
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "check.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        path = extract("all", "--all-features", os.path.join(WORK, "facts-target"))
        configs = all_configs() if opts.get("configs") else []
        resource.setrlimit(resource.RLIMIT_AS, (24 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
        engine.DEADLINE[0] = t0 + (660 if tier == "quick" else 7200)
        A = core.Analysis(prop, Facts(path), tier, configs)
        A.formats = set(f[1] for f in FORMATS)
        err = core.decide(A, module, rules)
        if not A.rules and not A.findings:
            if err:
                sys.stderr.write(err)
            return no_answer("nothing could be analysed")
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    listed = {k["key"]: k for k in known["findings"] if k["property"] == prop}
    news, olds = [], []
    for f in A.findings:
        (olds if f.key in listed else news).append(f)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay = os.path.join("evidence", prop + ".violation.txt")
    rp = os.path.join(HERE, replay)
    if os.path.exists(rp):
        os.remove(rp)
    total = sum(r[0] for r in A.rules.values())
    good = sum(r[1] for r in A.rules.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": opts["how"] + " Counts: instances per rule (found, satisfied), analysed entry points with their abstract paths, functions of the crate whose code the analysis went through.",
            "rules": {k: {"instances": v[0], "satisfied": v[1]} for k, v in sorted(A.rules.items())},
            "instances": total, "satisfied": good,
            "roots": A.roots,
            "paths": sum(r["paths"] for r in A.roots.values()),
            "functions_analysed": len(A.analysed), "functions": sorted(A.analysed)[:400],
            "configurations": [c[0] for c in configs] or ["all features"],
            "external_calls_without_a_model": dict(sorted(A.unmodelled.items())[:60]),
            "undecided": ["%s: %s" % u for u in A.undecided[:60]], "undecided_count": len(A.undecided),
            "known_findings": [f.key for f in olds],
            "samples": A.samples[:40],
        },
        "assumptions": opts.get("assumes", []) + COMMON,
        "violations": len(news),
        "wall_s": round(time.time() - t0, 2),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    for f in olds:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, listed[f.key]["what"], f.key))
    if A.undecided:
        print("undecided: %d" % len(A.undecided))
        for w, y in A.undecided[:8]:
            print("  %s: %s" % (w, y[:300]))
    if err:
        sys.stderr.write(err)
    print("%s: %d rule instances, %d satisfied, %d functions, %d paths, %.1f s" % (prop, total, good, len(A.analysed), ev["coverage"]["paths"], time.time() - t0))
    if news:
        with open(rp, "w") as o:
            o.write("property %s is violated\nrerun: python3 /verif/check.py %s\n\n" % (prop, prop))
            o.write("\n\n".join(f.text() for f in news))
            o.write("\n")
        for f in news[:10]:
            print("  [%s] %s: %s" % (f.rule, f.where, f.what[:500]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


COMMON = [
    "The compiler's MIR is what runs; unsafe code of dependencies and the models of the standard library, tokio and the cryptography crates (sa/models.py) are trusted.",
    "What the analysis could not decide is listed under coverage.undecided and raises no alarm.",
]

if __name__ == "__main__":
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py PROPERTY, one of %s" % ", ".join(sorted(CHECKS)))
        sys.exit(2)
    sys.exit(main(sys.argv[1]))
