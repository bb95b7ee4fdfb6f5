"""Runs one property's monitors: python -m rv.check C01 --tier quick [--replay FILE]"""
import argparse
import collections
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

from . import core

KNOWN = os.path.join(core.HERE, "known_findings.json")
MOD = None
# repetitions of a check's quick plan, so that every quick check uses about half a minute
ROUNDS = dict(C01=8, C02=6, C03=6, C04=10, C06=4, C08=6, C09=4, C11=8, C12=5, C13=10, C14=4, C15=6, C16=4, C17=4, C18=3,
              C22=2, C26=3)


def _work(job):
    return core.run_case(MOD, *job)


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN)).get("findings", []) if k["property"] == prop]


def main():
    global MOD
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("RV_JOBS", "8")))
    ap.add_argument("--scenario")
    ap.add_argument("--index", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    sys.path.insert(0, core.REPO)
    import emc2
    if not os.path.abspath(emc2.__file__).startswith(os.path.abspath(core.REPO) + os.sep):
        print(f"ERROR: emc2 imported from {emc2.__file__}, not {core.REPO}")
        return 2
    import dask
    dask.config.set(scheduler="synchronous")
    MOD = importlib.import_module(f"rv.checks.{a.prop.lower()}")
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = a.seed

    if a.replay:
        r = json.load(open(a.replay))
        jobs = [(r["scenario"], r["index"], r["seed"], r["tier"])]
    else:
        k = ROUNDS.get(a.prop, 1) if tier == "quick" else 1
        jobs = [(sc, i, seed, tier) for sc, n in MOD.plan(tier) for i in range(n * k)]
        if a.scenario:
            jobs = [j for j in jobs if j[0] == a.scenario and (a.index is None or j[1] == a.index)]
    budget = float(os.environ.get("RV_BUDGET", "600" if tier == "quick" else "10000"))

    results, unfinished = [], 0
    if len(jobs) == 1 or a.jobs == 1:
        results = [_work(j) for j in jobs]
    else:
        if hasattr(MOD, "preload"):
            MOD.preload(tier)
        ctx = mp.get_context("fork")
        with cf.ProcessPoolExecutor(max_workers=a.jobs, mp_context=ctx) as ex:
            futs = {ex.submit(_work, j): j for j in jobs}
            try:
                for f in cf.as_completed(futs, timeout=max(1.0, budget - (time.time() - t0))):
                    results.append(f.result())
            except cf.TimeoutError:
                unfinished = sum(not f.done() for f in futs)
                for f in futs:
                    f.cancel()
                for p in list(ex._processes.values()):
                    p.kill()
    results.sort(key=lambda r: (r["scenario"], r["index"]))

    seen, states, errs, viols = collections.Counter(), set(), [], []
    for r in results:
        seen.update(r["seen"])
        states.update(f"{r['scenario']}:{s}" for s in r["states"])
        if r["err"]:
            errs.append(r["err"])
        for v in r["violations"]:
            viols.append((r, v))

    known = load_known(a.prop)
    new, matched = [], collections.defaultdict(list)
    for r, v in viols:
        k = next((k for k in known if k["scenario"] == r["scenario"] and k["key"] == v["key"]
                  and ("index" not in k or k["index"] == r["index"])), None)
        if k is None:
            new.append((r, v))
        else:
            matched[k["id"]].append((r, v))
    for k in known:
        if matched[k["id"]]:
            print(f"KNOWN-FINDING: property={a.prop} {k['id']}: {k['what']}")

    nontriv = {json.dumps([r["scenario"], r["index"]]) for r in results if r["nontrivial"]}
    missing = []
    if not a.replay and not a.scenario:
        for m, n in getattr(MOD, "REQUIRED", {}).items():
            if seen[m] < n:
                missing.append(f"{m}: {seen[m]} < {n}")

    ev = dict(property=a.prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=len(results), distinct_nontrivial=len(nontriv), rule=MOD.RULE,
                            monitor_observations=dict(sorted(seen.items())),
                            observed_values=int(sum(seen.values())),
                            distinct_states=len(states), states_sample=sorted(states)[:40],
                            scenarios={sc: sum(r["scenario"] == sc for r in results)
                                       for sc in sorted({r["scenario"] for r in results})},
                            samples=[dict(scenario=r["scenario"], index=r["index"], info=r["info"],
                                          observations=r["seen"]) for r in results[:: max(1, len(results) // 6)]][:8],
                            known_findings_seen={k: len(v) for k, v in matched.items()},
                            unfinished_cases=unfinished, required_missing=missing, harness_errors=len(errs)),
              assumptions=getattr(MOD, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    if not a.replay and not a.scenario:
        os.makedirs(os.path.join(core.HERE, "evidence"), exist_ok=True)
        with open(os.path.join(core.HERE, "evidence", f"{a.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    print(f"{a.prop} {tier}: {len(results)} executions, {sum(seen.values())} monitor observations, "
          f"{len(states)} distinct states, {len(new)} violations, {time.time() - t0:.1f}s")
    if a.v:
        for m, n in sorted(seen.items()):
            print(f"   {m}: {n}")
        slow = sorted(results, key=lambda r: -r["wall"])[:5]
        print("   slowest:", [(r["scenario"], r["index"], round(r["wall"], 1)) for r in slow])
    if new:
        rdir = os.path.join(core.HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        shown = 0
        groups = collections.Counter()
        path0 = None
        for r, v in new:
            g = (r["scenario"], v["monitor"])
            groups[g] += 1
            if groups[g] > 1 or shown >= 12:
                continue
            path = os.path.join(rdir, f"{a.prop}_{r['scenario']}_{r['index']}.json")
            with open(path, "w") as f:
                json.dump(dict(property=a.prop, scenario=r["scenario"], index=r["index"], seed=seed if not a.replay
                               else jobs[0][2], tier=tier, violation=v, info=r["info"]), f, indent=1, default=str)
            path0 = path0 or path
            print(f"  [{r['scenario']}#{r['index']}] {v['monitor']}: {v['message']}")
            if a.v and "tb" in v["detail"]:
                print(v["detail"]["tb"])
            shown += 1
        print(f"  ({len(new)} violations in {len(groups)} scenario/monitor groups)")
        print(f"VIOLATION property={a.prop} replay={os.path.relpath(path0, core.HERE)}")
        return 1
    if errs:
        print("ERROR: harness errors:\n" + "\n".join(errs[:5]))
        return 2
    if missing:
        print("INCONCLUSIVE: monitors not reached: " + "; ".join(missing))
        return 2
    if unfinished:
        print(f"note: time budget reached, {unfinished} cases not run")
    if not results:
        return 2
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
