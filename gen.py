#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py and props.py."""
import json, os
from catalog import PROPS as CAT
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for d, _ in CAT:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
HOOKS = dict(guard="--cfg verif", enable="RUSTFLAGS='--cfg verif' (set by check.py for the IR build and the replay binaries)",
             source_commits=["4ac5cdf", "4117c94"])
checks, na = [], []
for d, why in CAT:
    i = d["id"]
    if i in PROPS and not why:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique="symbolic execution of the LLVM IR of the real code, z3 deciding every branch and assertion", level="model_checking",
                           level_note="Bounded, exhaustive within: " + c["bounds"] + ". " + c.get("note", "") + "Trusts the engine, z3 and the listed stand-ins; counterexamples are replayed natively before being reported."))
    else:
        na.append(dict(property=i, reason=why or "no check built yet"))
m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=HOOKS, checks=checks, not_applicable=na)
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
