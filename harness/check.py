"""
Checks one property: python3 harness/check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: the property held on everything that was explored. Exit 1 and a VIOLATION line: it is broken. Exit 2: the check
itself failed.
"""
import argparse
import hashlib
import json
import os
import sys
import time
import traceback

from driver import BUILD, HARNESS, SPEC, VERIF, MachineryError, Run
from plans import PLANS

KNOWN = os.path.join(VERIF, "known_findings.txt")
THOROUGH_BUDGET = 1500


def key_of(prop, failure):
    """Identifies one failing history: the commands up to the failing one, and what is wrong there."""
    t = failure["trace"]
    what = [prop, failure["op"], failure["clauses"], t.get("id", ""), [strip(e) for e in t["ev"][: failure["at"]]]]
    return hashlib.sha1(json.dumps(what, sort_keys=True).encode()).hexdigest()[:16]


def strip(e):
    return {k: v for k, v in e.items() if k not in ("st", "err", "res", "chg", "argmut", "obs", "fs", "draw", "paths")}


def known_keys(prop):
    """Lines 'finding: property=<id> key=<key> <text>' are suppressed, lines 'fixed: ...' are history."""
    keys = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith(f"finding: property={prop} key="):
                    key, _, text = line.split("key=", 1)[1].partition(" ")
                    keys[key.strip()] = text.strip()
    return keys


def relevant(plan, failures):
    """The clauses that this property is about."""
    out = []
    for f in failures:
        ev = f["trace"]["ev"][f["at"] - 1] if f["at"] >= 1 else {}
        cl = [c for c in f["clauses"] if c in ("hang", "malformed") or plan["counts"](ev, c, f)]
        if cl:
            out.append(dict(f, clauses=cl))
    return out


def run_plan(run, plan):
    tier = 1 if run.thorough() else 0
    for d in plan.get("design", []):
        if not d.get("thorough_only") or tier:
            consts = d["constants"][tier] if isinstance(d.get("constants"), (list, tuple)) else d.get("constants")
            r = run.tlc(d["module"], consts, invariants=d.get("invariants", ()), properties=d.get("properties", ()),
                        spec=d.get("spec"), constraint=d.get("constraint"), view=d.get("view"), heap=d.get("heap", "8g"),
                        timeout=d.get("timeout", 800 if not tier else 3000))
            run.design.append({"module": d["module"], "constants": consts or {}, "distinct_states": r["distinct"],
                               "states_generated": r["generated"],
                               "checked": list(d.get("invariants", ())) + list(d.get("properties", ()))})
    deadline = run.t0 + THOROUGH_BUDGET
    rounds = plan.get("rounds", 8) if tier else 1
    for rnd in range(rounds):
        if rnd and time.time() > deadline:
            break
        for g in plan["gen"]:
            if g.get("thorough_only") and not tier:
                continue
            n, d = g["size"][tier]
            if n == 0 or (rnd and not g.get("random", g["mode"].startswith("rand"))):
                continue
            seed = run.seed * 1000 + rnd
            progs = run.generate(g["module"], g["mode"], n, d, seed=seed, constants=g.get("constants"))
            cap = g.get("cap", (None, None))[tier]
            if cap and len(progs) > cap:
                progs = sorted(progs, key=lambda p: hashlib.md5(f"{seed}{json.dumps(p, sort_keys=True)}".encode()).hexdigest())[:cap]
            for i, p in enumerate(progs):
                p["id"] = f"{g['mode']}/{i}"
            traces = run.replay(progs, g.get("worker", "pool_worker.py"))
            run.validate(traces, g.get("trace", "PoolTrace"), g.get("trace_constants"))
            keep = [t for t in traces if len(t["ev"]) > 2][:1] or traces[:1]
            run.samples.append(summary(keep[0]))
            for f in run.failures:
                f.setdefault("worker", g.get("worker", "pool_worker.py"))
        if relevant(plan, run.failures):
            break


def summary(trace, limit=6):
    ev = [strip(e) for e in trace["ev"][:limit]]
    return {"mode": trace.get("id", ""), "hashseed": trace.get("hashseed"), "events": ev, "length": len(trace["ev"])}


def write_evidence(run, prop, plan, violations):
    cov = {
        "states": run.states,
        "transitions": run.transitions,
        "traces_validated_against_impl": run.traces,
        "events_validated": run.events,
        "events_by_action": dict(sorted(run.actions.items())),
        "behaviours_generated_from_spec": run.gen_behaviours,
        "design_model_checking": run.design,
        "samples": run.samples[:3],
        "stage_seconds": run.timing,
        "explanation": plan.get("note", ""),
    }
    ev = {
        "property": prop, "tier": run.tier, "seed": run.seed, "level": "model_checking", "coverage": cov,
        "assumptions": plan.get("assumptions", []) + [
            "TLC, the Java overrides for exact rational arithmetic, CPython and numpy evaluate correctly",
            "the projection of objects to abstract states (harness/project*.py) reads the public state faithfully"],
        "wall_s": round(time.time() - run.t0, 2), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def save_replay(prop, failure):
    folder = os.path.join(BUILD, "replays")
    os.makedirs(folder, exist_ok=True)
    key = key_of(prop, failure)
    path = os.path.join(folder, f"{prop}-{key}.json")
    t = failure["trace"]
    with open(path, "w") as f:
        json.dump({"property": prop, "key": key, "id": t.get("id"), "hashseed": t.get("hashseed"), "at": failure["at"],
                   "op": failure["op"], "clauses": failure["clauses"], "module": failure["module"],
                   "constants": failure["constants"], "worker": failure.get("worker"), "prog": t.get("prog"),
                   "failing_event": t["ev"][failure["at"] - 1] if failure["at"] >= 1 else None}, f, indent=1)
    return path


def replay(prop, path, run):
    """Execute the program of a replay file again and validate it."""
    with open(path) as f:
        rec = json.load(f)
    prog = {k: rec[k] for k in ("prog", "id") if k in rec}
    traces = run.replay([prog], rec["worker"], hashseeds=(rec["hashseed"],))
    run.validate(traces, rec["module"], rec["constants"])
    return relevant(PLANS[prop], run.failures)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    args = ap.parse_args()
    prop = args.property
    plan = PLANS[prop]
    run = Run(prop, args.tier, args.seed % 1000003)
    try:
        if args.replay:
            bad = replay(prop, args.replay, run)
            for f in bad:
                print(f"VIOLATION property={prop} replay={args.replay} at={f['at']} op={f['op']} clauses={','.join(f['clauses'])}")
            return 1 if bad else 0
        run_plan(run, plan)
        known = known_keys(prop)
        bad, seen, listed = [], set(), set()
        for f in relevant(plan, run.failures):
            key = key_of(prop, f)
            if key in known:
                listed.add(key)
            else:
                bad.append(f)
        for key in sorted(listed):
            print(f"KNOWN-FINDING: property={prop} key={key} {known[key]}")
        write_evidence(run, prop, plan, len(bad))
        for f in bad:
            sig = (f["op"], tuple(f["clauses"]))
            if sig in seen or len(seen) >= 10:
                continue
            seen.add(sig)
            print(f"VIOLATION property={prop} replay={save_replay(prop, f)} op={f['op']} clauses={','.join(f['clauses'])}")
        if bad:
            print(f"{prop}: {len(bad)} violating events in {run.traces} traces")
            return 1
        print(f"{prop}: held on {run.traces} traces with {run.events} events; TLC visited {run.states} states; "
              f"{time.time() - run.t0:.1f} s")
        return 0
    finally:
        run.close()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except MachineryError as e:
        print(f"ERROR {e}", file=sys.stderr)
        sys.exit(2)
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        sys.exit(2)
