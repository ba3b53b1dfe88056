#!/usr/bin/env python3
"""Writes checks.json (read by check.py) and MANIFEST.json from the table below."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASSUME = [
    "nsym's encoding of LLVM IR and z3 are trusted; every model reported (cover witness, counterexample) is re-run natively against the same tree",
    "the IR is rustc's optimised output (opt-level 1, fat LTO, overflow and debug checks on), std and dependencies included; code generation below the IR is trusted",
    "HashMap hashing is replaced by a fixed hash of concrete keys (iteration order is not observable in nmea-parser); log output is disabled (no logger installed)",
    "chrono is trusted as the calendar; the current time is the one the harness sets",
]
C = {}
def c(id, bounds, harnesses, outside="", assumptions=()):
    hs = []
    for h in harnesses:
        name, *o = h if isinstance(h, tuple) else (h,)
        d = dict(name=name)
        for x in o:
            d.update(x)
        hs.append(d)
    C[id] = dict(bounds=bounds, harnesses=hs, outside=outside, assumptions=list(assumptions))

exec(open(os.path.join(HERE, "tools", "table.py")).read())

# cover ids declared by the source of each harness are taken from checks.json's own baseline
base = {}
p = os.path.join(HERE, "tools", "covers.json")
if os.path.exists(p):
    base = json.load(open(p))
for v in C.values():
    for h in v["harnesses"]:
        h["covers"] = base.get(h["name"], [])
json.dump({"assumptions": ASSUME, "properties": C}, open(os.path.join(HERE, "checks.json"), "w"), indent=1, sort_keys=True)

NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
               technique="symbolic execution of the crate's LLVM IR (nsym) with z3 deciding every assertion over all inputs within the bounds; counterexamples replayed natively",
               level="model_checking",
               level_note="Bounded: " + C[i]["bounds"] + (" Outside: " + C[i]["outside"] if C[i]["outside"] else "") + " Trusts nsym, z3, rustc's front end and chrono's calendar.")
          for i in ids if i in C]
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in C]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the harness crates use only the public API of nmea-parser. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
