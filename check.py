#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Decides one property by exhaustive exploration of the real code in /repo. Exit 0: held on everything explored.
Exit 1 and a VIOLATION line: broken.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VF_PYTHON", "/opt/venv/bin/python")


def reexec():
    seed = os.environ.get("VERIF_SEED", "0")
    seed = int(seed) if seed.lstrip("-").isdigit() else 0
    want = str(seed % 4294967295)
    if os.environ.get("VF_CHILD") == "1" and os.environ.get("PYTHONHASHSEED") is not None:
        return seed
    env = dict(os.environ, PYTHONHASHSEED=want, VF_CHILD="1", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == "__main__":
    SEED = reexec()

sys.path.insert(0, HERE)

import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import time  # noqa: E402


def load_known(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        data = json.load(f)
    return {k["signature"]: k["what"] for k in data["known"] if k["property"] == prop}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--workers", type=int)
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    prop = args.property
    t0 = time.time()

    replay_dir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    rpath = os.path.join(replay_dir, f"{prop}.json")
    evidence = {
        "property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
        "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                     "exhaustive": False}, "assumptions": [], "wall_s": 0.0, "violations": 0
    }

    def write():
        evidence["wall_s"] = round(time.time() - t0, 3)
        tmp = os.path.join(HERE, "evidence", f".{prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
            f.write("\n")
        os.replace(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))

    def violation(name, message, choices, labels):
        with open(rpath, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": SEED, "scenario": name, "choices": choices,
                       "trace": labels, "message": message,
                       "replay": f"VERIF_SEED={SEED} python3 /verif/check.py {prop} --tier {tier} --replay {rpath}"},
                      f, indent=1)
            f.write("\n")
        evidence["violations"] = 1
        write()
        print(f"{prop}: {name}: {message}")
        for label in labels[-60:]:
            print("   ", label)
        print(f"VIOLATION property={prop} replay={rpath}", flush=True)
        return 1

    # The code under test is imported here. If that is impossible, no property of it holds.
    try:
        from vf import explore as ex
        mod = importlib.import_module(f"vf.props.{prop.lower()}")
    except (SystemExit, KeyboardInterrupt):
        raise
    except BaseException as e:  # noqa
        import traceback
        tb = traceback.format_exc()
        if f"{os.sep}omemo{os.sep}" in tb or isinstance(e, ImportError) and "omemo" in str(e):
            return violation("import", "the library cannot be imported:\n" + tb, [], [])
        raise

    known = load_known(prop)
    scenarios = mod.scenarios(tier)
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        fn = dict((n, s) for n, s in scenarios)[rep["scenario"]]
        ctx = ex.Ctx()
        ch, failure = ex.run_path(fn, rep["choices"], ctx, known, labels=True)
        for label in ch.labels:
            print("   ", label)
        print("outcome:", failure[0] if failure else "no violation")
        return 1 if failure else 0

    budget = getattr(mod, "BUDGET_S", {}).get(tier, 600 if tier == "quick" else 7200)
    total = ex.Ctx()
    per = {}
    cov = evidence["coverage"]
    for i, (name, fn) in enumerate(scenarios):
        if args.only and name != args.only:
            continue
        left = budget - (time.time() - t0)
        t1 = time.time()
        ctx = ex.explore(fn, frozenset(known), workers=args.workers, deadline_s=max(left, 5))
        if ctx.violation is not None:
            v = ctx.violation
            ch, failure = ex.run_path(fn, v["choices"], ex.Ctx(), frozenset(), labels=True)
            msg = v["message"] if failure else v["message"] + "\n(the violation did not recur on immediate replay)"
            evidence["coverage"]["traces_validated_against_impl"] = total.executions + ctx.executions
            return violation(name, msg, v["choices"], ch.labels or [])
        # Replay determinism: the same choices must give the same execution.
        for c in ctx.samples[:1]:
            a, _ = ex.run_path(fn, c, ex.Ctx(), known, labels=True)
            b, _ = ex.run_path(fn, c, ex.Ctx(), known, labels=True)
            if a.labels != b.labels:
                ctx.divergences += 1
            if len(cov["samples"]) < 12:
                cov["samples"].append({"scenario": name, "choices": c, "trace": (a.labels or [])[:40]})
        per[name] = {"executions": ctx.executions, "states": len(ctx.states), "transitions": ctx.transitions,
                     "distinct_outcomes": len(ctx.outcomes), "outcomes": dict(sorted(
                         ctx.outcomes.items(), key=lambda kv: -kv[1])[:30]),
                     "counters": ctx.counters, "divergences": ctx.divergences,
                     "exhaustive": not ctx.counters.get("cut_short") and not ctx.divergences,
                     "wall_s": round(time.time() - t1, 2)}
        total.merge(ctx)
    cov.update({
        "states": len(total.states), "transitions": total.transitions,
        "traces_validated_against_impl": total.executions, "scenarios": per,
        "divergences": total.divergences, "exhaustive": all(p["exhaustive"] for p in per.values()),
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {}).get("quick", "")),
        "how": "every execution runs the real library code of /repo; states are hashes of disk and server contents "
               "after public calls, transitions are interactions of the library with storage, server and backends",
    })
    evidence["assumptions"] = list(getattr(mod, "ASSUMPTIONS", []))
    evidence["known_findings_seen"] = sorted(total.known)
    write()
    for sig in sorted(total.known):
        print(f"KNOWN-FINDING: property={prop} {known[sig]}")
    print(f"{prop} held: executions={total.executions} states={len(total.states)} transitions={total.transitions} "
          f"exhaustive={cov['exhaustive']} divergences={total.divergences} wall={time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
