#!/usr/bin/env python3
"""writes MANIFEST.json from specs/registry.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(H, "specs"))
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = registry.PROPS.get(p)
    if c:
        checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3-vt check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": c.get("technique", "contract-based deductive verification (own VC generator over clang's AST of /repo/cxx, z3/cvc5), plus a labelled bounded stand-in on the real code"),
                       "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": registry.NA.get(p, "no check built yet: the functions it depends on are not under contract")})
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo: contracts are kept in /verif/specs and matched to the functions of /repo/cxx by name and parameter position on every run."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
