#!/usr/bin/env python3
"""check.py <property id> [--replay FILE]

Decides one property on /repo's working tree. Environment: VERIF_SEED, VERIF_TIER (quick | thorough), and for
experiments REPO, BW_WORK, BW_BUDGET (seconds of a thorough run).
Exit 0: held on everything observed. Exit 1: violated, with a VIOLATION line. Exit 2: no verdict.
"""
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bwv import compiles, engine, plans     # noqa: E402
from bwv.runner import Total, run_jobs     # noqa: E402

SCALE = {"quick": 5, "thorough": 8}      # how many declarations a round looks at
HERE = os.path.dirname(os.path.abspath(__file__))
RULES = json.load(open(os.path.join(HERE, "rules.json")))


def known(prop):
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith("finding: "):
            head, _, key = line[len("finding: "):].rstrip("\n").partition(" key=")
            if head.strip() == f"property={prop}":
                out.append(key)
    return out


def rng(prop, seed, round_no):
    return random.Random(f"{prop}/{seed}/{round_no}")


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = json.load(open(sys.argv[3])) if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    if replay:
        prop, seed, tier = replay["property"], replay["seed"], replay["tier"]
        os.environ["VERIF_TIER"] = tier
    start = time.time()
    budget = float(os.environ.get("BW_BUDGET", "0" if tier == "quick" else "600"))
    total, found = Total(), []
    lock = engine.lock()
    engine.invalidate()
    try:
        round_no = replay["round"] if replay else 0
        longest = 0
        while True:
            t = time.time()
            only = replay["type"] if replay else None
            r, scale = rng(prop, seed, round_no), SCALE[tier]
            if prop in compiles.PLANS:
                compiles.PLANS[prop](r, scale, seed, round_no, total, found, only)
            else:
                run_jobs(prop, plans.PLANS[prop](r, scale), seed, round_no, total, found, only)
            longest = max(longest, time.time() - t)
            round_no += 1
            if replay or found or time.time() - start + longest > budget:
                break
    except engine.Inconclusive as e:
        print(f"INCONCLUSIVE property={prop}: {e}")
        if not found:
            sys.exit(2)
    finally:
        lock.close()
    keys = known(prop)
    hit = sorted({f.key for f in found if f.key in keys})
    new = [f for f in found if f.key not in keys]
    for k in hit:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if not replay:
        write_evidence(prop, tier, seed, total, new, time.time() - start, round_no)
    if new:
        f = min(new, key=lambda f: (f.op == "compile", len(f.source), len(f.input)))
        path = sys.argv[3] if replay else os.path.join(engine.WORK, "replay", f"{prop}.json")
        if not replay:
            engine.write(path, json.dumps(dict(
                property=prop, seed=seed, tier=tier, round=f.round, job=f.job, type=f.type, op=f.op, declaration=f.source,
                input=f.input, expected=f.expected, observed=f.observed, violations=len(new),
                rerun=f"python3 {HERE}/check.py {prop} --replay {path}"), indent=1))
        print(f.source)
        print(f"{f.op}: {f.input}\n  expected {f.expected}\n  observed {f.observed}")
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    if total.evaluations == 0 or total.distinct == 0:
        print(f"INCONCLUSIVE property={prop}: nothing was observed")
        sys.exit(2)
    print(f"{prop}: held on {total.evaluations} observations ({total.distinct} distinct and non-trivial) of "
          f"{total.types} types, {time.time() - start:.0f} s")


def write_evidence(prop, tier, seed, total, new, wall, rounds):
    rule = RULES[prop]
    engine.write(os.path.join(HERE, "evidence", f"{prop}.json"), json.dumps({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": total.evaluations, "distinct_nontrivial": total.distinct, "rule": rule["rule"],
                     "samples": total.samples[:12], "declarations_generated": total.declarations,
                     "declarations_rejected_by_the_compiler": total.rejected, "types_monitored": total.types,
                     "field_accessors": total.fields, "rounds": rounds, "observations_by_operation": total.ops,
                     **total.extra},
        "assumptions": rule["assumptions"], "wall_s": round(wall, 1), "violations": len(new)}, indent=1) + "\n")


if __name__ == "__main__":
    main()
