#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, lib/specs.py and NA below."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "lib"))
import specs
NA = {
    "C43": "deciding a TLS handshake needs the code of the OpenSSL library, which is not in the repository and cannot be encoded; with SSL calls replaced by stand-ins nothing of the guarantee is left to decide",
    "C44": "the guarantee is about dlopen'ed module libraries; the dynamic loader and the module's own code (Lua, PHP, Python interpreters) cannot be encoded",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in specs.SPECS:
        s = specs.SPECS[pid]
        bounds = "; ".join("%s: %s" % (q["name"], q.get("bounds", "")) for q in s["queries"])
        note = "Bounded, solver-decided over the compiled C of /repo (CBMC, no sampling). " + bounds + ". " + s.get("outside", "Larger inputs than the bounds and allocation failure are outside.")
        checks.append(dict(property=pid, quick_cmd="./bin/check %s quick" % pid, thorough_cmd="./bin/check %s thorough" % pid,
                           technique="bounded symbolic execution of the real C with CBMC; SAT/SMT verdict; counterexamples replayed natively",
                           level="model_checking", level_note=note))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "no solver query is registered for it in this revision")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
