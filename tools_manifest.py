"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
NOTE = {
 "C05": "differential oracle over executed schedules; thread and chunk schedules are those dask actually produced (counted in the evidence)",
 "C23": "observes what was actually put on the matplotlib axes (Agg backend)",
}
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(here, "rv", "checks", i.lower() + ".py")):
        na.append(dict(property=i, reason="no check built yet"))
        continue
    checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
                       evidence_file=f"evidence/{i}.json", level="exploration",
                       technique="runtime monitoring: the real code runs under generated hostile workloads and an "
                                 "independent reference-model monitor judges every observed value",
                       level_note=NOTE.get(i, "held on the executions listed in the evidence file, judged value by value; "
                                  "says nothing about inputs the workload does not generate; trusts numpy/xarray/scipy "
                                  "and the reference formulas in rv/")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: monitors observe model data sets, figures and files at the API boundary, "
                     "and wrap functions from the harness."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
