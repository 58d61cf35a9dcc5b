#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json
NA = {}
COMMON = ("Verus proves the contracts on the functions extracted from /repo on each run, for all inputs, depths and iterations (the byte-vector-backed types included). Kani proves obligations on the public API of the real crate "
          "for the integer-backed types over all symbolic inputs (unwinding assertions on, so complete); its obligations on byte-vector-backed types are for the stated small depths, labelled bounded and not counted. The contracts are also evaluated on drawn values "
          "on the real code, which supplies failing inputs. Assumed: the library contracts listed in the evidence (checked by Kani on the library, for vectors of at most 3 bytes where they have any length), what `derive` expands to (the expansion is under contract), "
          "the text sink behind write!. Trusted: Verus/Z3, Kani/CBMC, rustc, the extractor's rewrites (listed and counted in the evidence); 64-bit little-endian target.")
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE = {}
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": "function contracts on the real code discharged by Verus (deciding) and Kani; the contracts evaluated on drawn inputs supply failing inputs", "level": "proof", "level_note": NOTE.get(i, COMMON)})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks: the public API and mechanical extraction suffice. Known findings and fixes: known_findings.txt. Design: DESIGN.md."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
