"""writes DESIGN.md from the properties, the harness descriptions, the notes below, the planted bugs and the findings (run after editing; not used by the checks)"""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symex import driver  # noqa: E402

HEAD = open(os.path.join(HERE, "tools", "design_head.md")).read()
NOTES = {}
exec(open(os.path.join(HERE, "tools", "design_notes.py")).read())
props = {p["id"]: p for p in map(json.loads, open(os.path.join(HERE, "properties.jsonl")))}
seeds = {}
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    seeds.setdefault(json.load(open(f))["property"], []).append((os.path.basename(os.path.dirname(f)), json.load(open(f))))
fixes = [line.strip() for line in open(os.path.join(HERE, "known_findings.jsonl")) if line.startswith("fixed:")]

out = [HEAD.rstrip(), "", "## Properties", ""]
for i in sorted(props):
    p = props[i]
    driver.load_checks(i)
    n = NOTES[i]
    out += [f"### {i}: {p['title']}", "", p["statement"], "",
            f"*Oracle.* {n['oracle']}", "",
            f"*Why beyond the tests.* {p['why_tests_cant'].rstrip('.')}.", "",
            f"*Cost.* quick about {n['cost']} s on 8 cores.", ""]
    if driver.ASSUMPTIONS.get(i):
        out += ["*Bounds and assumptions.* " + "; ".join(a.rstrip(".") for a in driver.ASSUMPTIONS[i]) + ". Ranges of the symbolic variables: `evidence/" + i + ".json`.", ""]
    if n.get("outside"):
        out += ["*Outside of the claim.* " + n["outside"], ""]
    if n.get("corrected"):
        out += ["*Corrected checks and claims.* " + n["corrected"], ""]
    out += ["| harness | configurations (quick + thorough) | claim |", "|---|---|---|"]
    for h in driver.REGISTRY[i]:
        out.append(f"| {h.name} | {len(h.cfgs)}" + (f" + {len(h.thorough_cfgs)}" if h.thorough_cfgs else "") + f" | {' '.join(h.bounds.split()).replace('|', chr(92) + '|')} |")
    out.append("")
out += ["## Planted bugs", "",
        "All of them apply to /repo's HEAD, build, pass the stable tests, and their demonstration fails with the patch and passes without it. `caught by` names the harness of the property's check.", "",
        "| bug | property | caught by | breaks |", "|---|---|---|---|"]
for i in sorted(seeds):
    for n, m in seeds[i]:
        out.append(f"| {n} | {i} | {CAUGHT.get(n, '?')} | {' '.join(m['what_it_breaks'].split())} |")
out += ["", SEED_TEXT.strip(), "", "## Defects of the code found by the checks", "",
        f"{len(fixes)} defects were repaired with `fix:` commits (no open known finding):", ""]
out += ["* " + f[len("fixed: property="):] for f in fixes]
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
print(len(out), "lines", [n for v in seeds.values() for n, _ in v if n not in CAUGHT])
