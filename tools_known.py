"""Rewrites the 'fixed' list of known_findings.json from /repo's fix commits."""
import json, subprocess
PR = {}
for line in """single-subcolumn convective|C01
stratiform placement lost|C02
stratiform placement without|C02
chunked sub-grid|C04
distribution never ended|C04
bulk radar attenuation was lost|C06
bulk radar extinction and|C06
bulk lidar extinction and|C10
microphysics radar attenuation considered|C07
empirical radar attenuation|C08
totals depended on the position|C07
radar reflectivity accumulated|C05
lidar totals accumulated|C05
second microphysics P3 radar|C05
second microphysics P3 lidar|C05
total spectral width|C07
minimum detectable|C09
oxygen line width|C09
gaseous attenuation used frequency|C09
water vapor attenuation|C09
ref_rng passed|C25
convective precipitation overlap|C03
molecular transmittance ignored|C12
calc_LDR_and_ext|C12
NSSL terminal|C07
run on P3 ice alone|C07
empirical lidar calculation failed|C08
variable density|C10
molecular mass extinction|C11""".splitlines():
    k, v = line.split("|"); PR[k] = v
import sys
extra = __import__("os").path.join(__import__("os").path.dirname(__file__) or ".", "tools_known_extra.txt")
if __import__("os").path.exists(extra):
    for line in open(extra).read().split("\n"):
        if "|" in line:
            k, v = line.split("|"); PR[k] = v
f = "/verif/known_findings.json"
d = json.load(open(f))
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    c = [v for k, v in PR.items() if k in s]
    assert len(c) == 1, (s, c)
    out.append(f"fixed: property={c[0]} {h} {s[5:]}")
d["fixed"] = out
json.dump(d, open(f, "w"), indent=1)
print(len(out))
