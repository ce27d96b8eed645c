"""Entry point of every check.

    run.py --property C01 [--tier quick|thorough] [--seed N] [--cases N]
    run.py --replay FILE
"""
from __future__ import annotations

import argparse
import collections
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import core  # noqa: E402
import registry  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.json")


def load_known(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == prop]


def known_match(known, viol, case):
    for k in known:
        if k["kind"] != viol["kind"]:
            continue
        if k.get("msg_contains") and k["msg_contains"] not in viol["msg"]:
            continue
        if all(_lookup(case, path) == val for path, val in k.get("case_has", {}).items()):
            return k
    return None


def _lookup(case, path):
    cur = case
    for p in path.split("."):
        if isinstance(cur, list):
            cur = cur[int(p)] if p.isdigit() and int(p) < len(cur) else None
        elif isinstance(cur, dict):
            cur = cur.get(p)
        else:
            return None
    return cur


def write_replay(prop, case, viol, res, seed, idx, tier, orig_case, runs):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, "replays", f"{prop}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "violation": viol, "case": case, "digest": res["digest"],
                   "events": res.get("events", []),
                   "found_with": {"seed": seed, "case_index": idx, "tier": tier},
                   "original_case": orig_case, "minimisation_runs": runs}, f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        data = json.load(f)
    prop = data["property"]
    world = registry.world_for(prop)
    world.prepare()
    pad = [bytearray(64 + i % 512) for i in range(int(os.environ.get("SIM_PAD", "0")))]
    res = core.execute_case(world, prop, data["case"], registry.CASE_TIMEOUT)
    del pad
    for e in res.get("events", []):
        print("  ", e)
    for e in res["errors"]:
        print("harness error:", e)
    hit = [v for v in res["violations"] if v["property"] == prop]
    for v in hit:
        print("violation:", v["kind"], "-", v["msg"])
    same = any(v["kind"] == data["violation"]["kind"] for v in hit)
    print("digest", res["digest"], "recorded", data["digest"], "identical" if res["digest"] == data["digest"] else "different")
    if same:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if res["errors"]:
        return 2
    return 1 if hit else 0


def replays_elsewhere(path, kind):
    """Does the replay file reproduce the violation in a fresh interpreter?"""
    crash = kind in ("no-progress", "process-died")
    for k in range(3 if crash else 2):
        # crashes must repeat whatever the memory layout: see DESIGN.md on petsc4py's error handler
        env = dict(os.environ, SIM_PAD=str(k * 7919), SIM_CONFIRM="1")
        p = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "--replay", path], capture_output=True,
                           text=True, timeout=4 * registry.CASE_TIMEOUT + 60, env=env)
        hit = p.returncode == 1 and f"violation: {kind} " in p.stdout
        if hit != crash:
            return hit
    return crash


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--first", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--digests", help="write one line per case with its trace digest")
    ap.add_argument("--show-other", action="store_true", help="print the cases that violate another property")
    ap.add_argument("--probe", action="store_true",
                    help="stop at the first violation, neither minimise nor record it (for tools/mutate.py)")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop, tier = a.property, a.tier
    t0 = time.monotonic()
    world = registry.world_for(prop)
    world.prepare()
    budget = registry.budget(prop, tier)
    ncases = a.cases or budget["cases"]
    known = load_known(prop)

    def alarm(line):
        return any(v["property"] == prop and not known_match(known, v, line["case"]) for v in line["res"]["violations"])

    results = core.search(world, prop, tier, a.seed, ncases, a.workers, budget["cap"], registry.CASE_TIMEOUT,
                          alarm, 0 if a.probe else budget["after_alarm"])
    t_search = time.monotonic() - t0
    if a.probe:
        for d in results:
            for v in d["res"]["violations"]:
                if alarm({"res": {"violations": [v]}, "case": d["case"]}):
                    print(f"ALARM {prop} {v['kind']} case {d['idx']}: {v['msg'][:120]}")
                    return 1
        errs = sum(bool(d["res"]["errors"]) for d in results)
        print(f"{prop}: quiet in {len(results)} runs, {errs} harness errors")
        return 2 if errs else 0
    if a.digests:
        with open(a.digests, "w") as f:
            for d in results:
                f.write(f"{d['idx']} {d['chash']} {d['res']['digest']} {d['res']['nevents']}\n")

    errors, viols, other = [], [], collections.Counter()
    for d in results:
        for e in d["res"]["errors"]:
            errors.append((d["idx"], e))
        for v in d["res"]["violations"]:
            if v["property"] == prop:
                viols.append((d, v))
            else:
                other[v["property"] + ":" + v["kind"]] += 1
                if a.show_other:
                    print(json.dumps({"violation": v, "case": d["case"]}))

    # determinism self-check: re-execute a few cases, the trace must be identical
    mism = 0
    redo = [d for d in results if d["case"] is not None and not d["res"].get("timeout")][:3]
    for d in redo:
        r2 = core.execute_case(world, prop, d["case"], registry.CASE_TIMEOUT)
        mism += r2["digest"] != d["res"]["digest"]

    known_hits = collections.Counter()
    fresh = []
    for d, v in viols:
        k = known_match(known, v, d["case"])
        if k:
            known_hits[k["id"]] += 1
        else:
            fresh.append((d, v))
    for k in known:
        res = core.execute_case(world, prop, k["case"], registry.CASE_TIMEOUT)
        hit = any(v["property"] == prop and known_match([k], v, k["case"]) for v in res["violations"])
        print(f"KNOWN-FINDING: property={prop} {k['what']}" + ("" if hit else " (did not reproduce in this run)"))
        for v in res["violations"]:
            if v["property"] == prop and not known_match(known, v, k["case"]):
                fresh.append(({"idx": -1, "case": k["case"], "res": res}, v))

    code = 0
    nviol = len(fresh)
    unrepeated = []
    if fresh:
        # report one violation per kind, smallest index first
        seen = set()
        for d, v in fresh:
            if v["kind"] in seen or len(seen) >= 3:
                continue
            seen.add(v["kind"])
            case, runs = core.minimise(world, prop, d["case"], v["kind"], registry.CASE_TIMEOUT, budget["shrink"])
            res = core.execute_case(world, prop, case, registry.CASE_TIMEOUT)
            vv = [x for x in res["violations"] if x["property"] == prop and x["kind"] == v["kind"]]
            if not vv:
                case, res, vv = d["case"], d["res"], [v]
            path = write_replay(prop, case, vv[0], res, a.seed, d["idx"], tier, d["case"], runs)
            if not replays_elsewhere(path, v["kind"]):
                os.remove(path)
                path = write_replay(prop, d["case"], v, d["res"], a.seed, d["idx"], tier, d["case"], 0)
                if not replays_elsewhere(path, v["kind"]) and v["kind"] in ("no-progress", "process-died"):
                    # pure Python code under a simulator cannot crash or hang once and not again:
                    # this is the machine or a library below it, so it is recorded, not reported
                    os.remove(path)
                    print(f"note: case {d['idx']} {v['kind']} once, but not on re-execution: {v['msg']}")
                    unrepeated.append({"case_index": d["idx"], "kind": v["kind"]})
                    nviol -= 1
                    continue
            print(f"{prop} {v['kind']}: {vv[0]['msg']}")
            print(f"  seed {a.seed} case {d['idx']}, minimised in {runs} runs")
            print(f"VIOLATION property={prop} replay={path}")
            code = 1
    if code == 0 and (errors or mism):
        for idx, e in errors[:3]:
            print(f"HARNESS ERROR case {idx}: {e}", file=sys.stderr)
        if mism:
            print(f"HARNESS ERROR: {mism} of {len(redo)} re-executed cases had a different trace", file=sys.stderr)
        code = 2
    if not a.no_evidence:
        nviol = max(nviol, 0) if code == 1 else 0
        write_evidence(prop, tier, a.seed, world, results, budget, t_search, time.monotonic() - t0, nviol,
                       known_hits, other, errors, mism, len(redo), a.workers, unrepeated)
    n = len(results)
    print(f"{prop}: {n} runs, {nviol} violations, {len(errors)} harness errors, {time.monotonic() - t0:.1f} s"
          + (f"; seen for other properties: {dict(other)}" if other else ""))
    return code


def write_evidence(prop, tier, seed, world, results, budget, t_search, wall, nviol, known_hits, other, errors,
                   mism, nredo, workers, unrepeated):
    faults, probes = collections.Counter(), collections.Counter()
    simtime = events = checks = 0
    distinct, traces, scheds = set(), set(), set()
    for d in results:
        r = d["res"]
        faults.update(r["faults"])
        probes.update(r["probes"])
        simtime += r["simtime"]
        events += r["nevents"]
        checks += r["checks"]
        traces.add(r["digest"])
        if r.get("sched"):
            scheds.add(r["sched"])
        if r["nontrivial"]:
            distinct.add((d["chash"], r["digest"]))
    n = len(results)
    samples = []
    for d in results:
        if d["case"] is not None and d["res"]["nontrivial"] and len(json.dumps(d["case"])) < 6000:
            samples.append({"case_index": d["idx"], "case": d["case"], "trace_tail": d["res"].get("events", [])[-12:],
                            "digest": d["res"]["digest"]})
        if len(samples) >= 3:
            break
    info = world.info(prop)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(distinct),
            "rule": info["rule"],
            "samples": samples,
            "runs_requested": budget["cases"],
            "runs_per_hour": round(n / max(t_search, 1e-9) * 3600),
            "seeds_per_hour": round(n / max(t_search, 1e-9) * 3600),
            "workers": workers,
            "simulated_events": events,
            "simulated_time": {"amount": simtime, "unit": info["time_unit"]},
            "oracle_checks": checks,
            "fault_kinds_injected": dict(sorted(faults.items())),
            "fault_kinds_never_fired": sorted(set(info["fault_kinds"]) - set(faults)),
            "probes": dict(sorted(probes.items())),
            "distinct_traces": len(traces),
            "distinct_schedules": len(scheds),
            "distinct_measure": info["distinct"],
            "determinism": {"re_executed": nredo, "different": mism},
            "real_code": info["real"],
            "stubs": info["stubs"],
            "known_finding_hits": dict(known_hits),
            "violations_of_other_properties_seen": dict(other),
            "harness_errors": len(errors),
            "unrepeated_crashes_below_the_code": unrepeated,
        },
        "assumptions": info["assumptions"],
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
