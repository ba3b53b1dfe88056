#!/usr/bin/env python3
"""Records which cover points each harness reaches on the unchanged tree (vacuity baseline)."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "tools", "covers.json")
base = json.load(open(p)) if os.path.exists(p) else {}
for f in glob.glob(os.path.join(HERE, ".build", "out-*.json")):
    d = json.load(open(f))
    if not d["errors"]:
        base[d["harness"]] = sorted(d["covers"])
json.dump(base, open(p, "w"), indent=1, sort_keys=True)
