#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the harness files."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
have = set()
for f in glob.glob(root + "/harness/*/*.go"):
    for m in re.finditer(r"func VF_([A-Z]\d\d)_", open(f).read()):
        have.add(m.group(1))
na = json.load(open(root + "/tools/not_applicable.json")) if os.path.exists(root + "/tools/not_applicable.json") else {}
checks, nap = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique="bounded symbolic execution of the real code (go/ssa) with an SMT solver; counterexamples replayed natively",
            level="model_checking",
            level_note="Every path and every input value inside the bounds listed in the evidence file is decided by the solver; nothing is claimed outside those bounds. Environment stand-ins are listed in DESIGN.md."))
    else:
        nap.append(dict(property=i, reason=na.get(i, "No harness yet: the code has not been encoded, so nothing is claimed.")))
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks: harnesses are added through a build overlay, /repo is not changed", source_commits=[]),
    checks=checks, not_applicable=nap, notes="Exit 0: held on everything explored. Exit 1 with VIOLATION: broken, replay file given. See DESIGN.md.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(nap), "not applicable")
