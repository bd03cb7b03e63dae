"""
python -m sim check P01 [--tier quick|thorough] [--runs N] [--seed S]
python -m sim replay FILE
python -m sim digest P01 --runs N        (digests of the first N runs)
python -m sim one P01 INDEX              (execute one run and show it)
python -m sim list
"""

import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")

# A fixed interpreter environment: hash order, no stale byte code.
_WANT = {"MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1",
         "PYTHONPYCACHEPREFIX": "/nonexistent-auxisim",
         "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
         "PYTHONWARNINGS": "ignore"}
_WANT["PYTHONHASHSEED"] = os.environ.get("SIM_HASHSEED", "0")
if any(os.environ.get(k) != v for k, v in _WANT.items()):
    os.environ.update(_WANT)
    os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    os.execv(sys.executable, [sys.executable, "-B", "-m", "sim"] +
             sys.argv[1:])

sys.path.insert(0, REPO)

import argparse                                             # noqa: E402
import importlib                                            # noqa: E402
import json                                                 # noqa: E402
import subprocess                                           # noqa: E402
import time                                                 # noqa: E402

from sim import core                                        # noqa: E402

PROPS = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09",
         "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18",
         "P23"]


def load_prop(pid):
    import auxi
    if not os.path.abspath(auxi.__file__).startswith(
            os.path.abspath(REPO) + os.sep):
        raise core.HarnessError("auxi was imported from " + auxi.__file__)
    prop = importlib.import_module("sim.props." + pid.lower())
    for name in prop.IMPORTS:
        importlib.import_module(name)
    if hasattr(prop, "warm_up"):
        prop.warm_up()
    return prop


def write_replay(prop, seed, index, sc, violation, digest, tail, note):
    d = os.path.join(core.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (prop.ID, core.short_hash([sc, violation["kind"]]))
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": prop.ID, "seed": seed, "index": index,
                   "note": note, "violation": violation, "digest": digest,
                   "trace_tail": tail, "scenario": sc}, f, indent=1)
        f.write("\n")
    return path


def merge(counter, d):
    for k, v in d.items():
        counter[k] = counter.get(k, 0) + v


def cmd_check(args):
    t0 = time.monotonic()
    pid = args.property
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = args.seed if args.seed is not None else \
        int(os.environ.get("VERIF_SEED", "1") or "1")
    print("seed %d tier %s property %s" % (seed, tier, pid))
    prop = load_prop(pid)
    known = core.load_known(pid)
    workers = args.workers or min(8, os.cpu_count() or 1)
    runs = args.runs or prop.RUNS[tier]
    wall = {"quick": 240.0, "thorough": 1500.0}[tier]

    # The pinned witnesses of the recorded findings are executed every time.
    witness_hits = {}
    for wsc in getattr(prop, "WITNESSES", []):
        wsc = json.loads(json.dumps(wsc))
        res = core.run_forked(prop, wsc, known)
        if "harness_error" in res:
            print(res["harness_error"])
            return 2
        witness_hits.update(res["known"])
        if res["violation"]:
            return report(prop, seed, tier, [dict(res, i=-1, scenario=wsc)],
                          known, t0, 0.0, {}, witness_hits, args)

    results, wall_search = core.search(prop, seed, tier, known, runs, wall,
                                       workers)
    for d in results:
        if "harness_error" in d:
            print("harness error in run %s:\n%s" % (d["i"],
                                                    d["harness_error"]))
            return 2

    # Determinism: some runs once more, in another interpreter with another
    # hash seed and another number of workers.
    det = {}
    if not any(d["violation"] for d in results):
        n = min(len(results), getattr(prop, "RECHECK", 24) if tier == "quick"
                else 300)
        det = recheck(pid, seed, tier, n, results)
    return report(prop, seed, tier, results, known, t0, wall_search, det,
                  witness_hits, args)


def recheck(pid, seed, tier, n, results):
    env = dict(os.environ, SIM_HASHSEED="4242")
    env.pop("PYTHONHASHSEED", None)
    out = subprocess.run(
        [sys.executable, "-B", "-m", "sim", "digest", pid, "--runs", str(n),
         "--seed", str(seed), "--tier", tier, "--workers", "3"],
        cwd=core.VERIF, env=env, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, text=True, timeout=800)
    got = {}
    for ln in out.stdout.splitlines():
        if ln.startswith("digest "):
            _, i, dg = ln.split()
            got[int(i)] = dg
    by_i = {d["i"]: d["digest"] for d in results}
    differing = [i for i in got if by_i.get(i) != got[i]]
    return {"rechecked": len(got), "differing": differing,
            "how": "fresh interpreter, PYTHONHASHSEED=4242, 3 workers"}


def report(prop, seed, tier, results, known, t0, wall_search, det,
           witness_hits, args):
    faults, probes, states, keys = {}, {}, set(), set()
    nontrivial_keys = set()
    sim_s = 0.0
    steps = 0
    known_hits = dict(witness_hits)
    for d in results:
        merge(faults, d["faults"])
        merge(probes, d["probes"])
        states.update(d["states"])
        keys.add(d.get("key"))
        if d["nontrivial"]:
            nontrivial_keys.add(d.get("key"))
        sim_s += d["sim_s"]
        steps += d["steps"]
        known_hits.update(d["known"])
    bad = [d for d in results if d["violation"]]
    if det and det.get("differing") and getattr(prop, "DETERMINISM", False):
        i = det["differing"][0]
        sc = core.scenario_for(prop, seed, i, tier)
        bad.append({"i": i, "scenario": sc, "digest": "", "violation": {
            "kind": "not-repeatable", "detail": "run %d gives another result "
            "in another process (hash seed)" % i}})
    by_kind = {}
    for d in bad:
        by_kind.setdefault(d["violation"]["kind"], d)
    lines = []
    for kind in sorted(by_kind)[:4]:
        d = by_kind[kind]
        sc = d.get("scenario") or core.scenario_for(prop, seed, d["i"], tier)
        used = 0
        viol, digest, tail = d["violation"], d["digest"], d.get("tail")
        if kind != "not-repeatable":
            small, used = core.minimise(prop, sc, viol, known,
                                        budget_s=args.min_budget)
            res = core.run_forked(prop, small, known)
            if core.same_class(res.get("violation"), viol):
                sc, viol = small, res["violation"]
                digest, tail = res["digest"], res["tail"]
        path = write_replay(prop, seed, d["i"], sc, viol, digest, tail,
                            "minimised with %d executions" % used)
        print("run %d (seed %s/%s/%d) violates: %s" %
              (d["i"], seed, prop.ID, d["i"], viol["kind"]))
        print(viol["detail"])
        lines.append("VIOLATION property=%s replay=%s" % (prop.ID, path))
    wall_total = time.monotonic() - t0
    n = len(results)
    samples = []
    for d in results[:2]:
        sc = d.get("scenario")
        if sc is not None:
            txt = core.canon(sc)
            samples.append({"run": d["i"], "scenario": txt[:3000],
                            "trace_tail": (d.get("tail") or [])[-6:]})
    evidence = {
        "property": prop.ID, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(nontrivial_keys),
            "rule": prop.RULE,
            "samples": samples or ["no run executed"],
            "distinct_scenarios": len(keys),
            "distinct_states": len(states),
            "state_measure": prop.STATE_MEASURE,
            "steps": steps,
            "simulated_seconds": sim_s,
            "simulated_days": round(sim_s / 86400.0, 3),
            "runs_per_hour": round(n / wall_search * 3600)
            if wall_search else 0,
            "seeds_per_hour": round(n / wall_search * 3600)
            if wall_search else 0,
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "real_components": prop.REAL,
            "stub_components": prop.STUB,
            "determinism": det,
            "known_findings_met": sorted(known_hits),
        },
        "assumptions": list(getattr(prop, "ASSUMPTIONS", [])),
        "wall_s": round(wall_total, 2),
        "violations": len(bad),
    }
    d = os.path.join(core.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.ID + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for sig in sorted(known_hits):
        print("KNOWN-FINDING: property=%s %s: %s" %
              (prop.ID, sig, known.get(sig, "")))
    print("%d runs, %d distinct non-trivial, %d states, %.0f runs/hour, "
          "%.1f s" % (n, len(nontrivial_keys), len(states),
                      evidence["coverage"]["runs_per_hour"], wall_total))
    print("faults injected: %s" % core.canon(faults))
    print("probes: %s" % core.canon(probes))
    if det:
        print("determinism: %s" % core.canon(det))
    for ln in lines:
        print(ln)
    return 1 if lines else 0


def cmd_digest(args):
    tier = args.tier or "quick"
    prop = load_prop(args.property)
    known = core.load_known(args.property)
    results, _ = core.search(prop, (1 if args.seed is None else args.seed), tier, known, args.runs, 900,
                             args.workers or 8)
    for d in results:
        print("digest %d %s" % (d["i"], d.get("digest")))
    return 0


def cmd_one(args):
    prop = load_prop(args.property)
    sc = core.scenario_for(prop, (1 if args.seed is None else args.seed), args.index,
                           args.tier or "quick")
    print(core.canon(sc))
    res = core.run_forked(prop, sc, core.load_known(args.property))
    print(json.dumps(res, indent=1))
    return 0


def cmd_replay(args):
    with open(args.file) as f:
        rep = json.load(f)
    prop = load_prop(rep["property"])
    known = core.load_known(rep["property"])
    res = core.run_forked(prop, rep["scenario"], known)
    if "harness_error" in res:
        print(res["harness_error"])
        return 2
    v = res["violation"]
    if v is None:
        print("the run no longer violates the property")
        return 0
    print(v["kind"])
    print(v["detail"])
    print("digest %s (recorded %s): %s" % (
        res["digest"], rep["digest"],
        "identical" if res["digest"] == rep["digest"] else "DIFFERENT"))
    print("VIOLATION property=%s replay=%s" % (rep["property"], args.file))
    return 1


def main():
    ap = argparse.ArgumentParser(prog="sim")
    sub = ap.add_subparsers(dest="cmd", required=True)
    for name in ("check", "digest", "one"):
        p = sub.add_parser(name)
        p.add_argument("property")
        if name == "one":
            p.add_argument("index", type=int)
        p.add_argument("--tier")
        p.add_argument("--runs", type=int)
        p.add_argument("--seed", type=int)
        p.add_argument("--workers", type=int)
        p.add_argument("--min-budget", type=float, default=25.0)
    p = sub.add_parser("replay")
    p.add_argument("file")
    sub.add_parser("list")
    args = ap.parse_args()
    if args.cmd == "list":
        print("\n".join(PROPS))
        return 0
    return {"check": cmd_check, "digest": cmd_digest, "one": cmd_one,
            "replay": cmd_replay}[args.cmd](args)


if __name__ == "__main__":
    try:
        code = main()
    except core.HarnessError as e:
        print("harness error: %s" % e)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
