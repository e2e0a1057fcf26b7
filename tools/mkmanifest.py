#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os, re, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
src = "".join(open(f).read() for f in glob.glob(V + "/harness/props/*.go"))
have = set(re.findall(r"^func H_([A-Z]\d+)_", src, re.M))
NA = json.load(open(V + "/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "bounded symbolic execution of the Go SSA of the real code, path conditions and assertions decided by z3, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Holds for every input within the bounds stated per harness in the evidence (symbolic bytes and integers; sizes and shapes enumerated). Trusts the SSA-to-SMT encoding (re-validated on sampled paths against the compiled code in every run), the models of a few runtime and standard library functions listed in the evidence, and z3's unsat answers.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./tools/build.sh", "checks": checks, "not_applicable": na,
           "notes": "check.sh rebuilds the engine and the harness from /repo's working tree on every run. No hooks in /repo."},
          open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
