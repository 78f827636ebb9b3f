#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and the contract modules that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = "all obligations of the functions under contract are discharged for all inputs (real arithmetic); a bounded run of the real code supplies failing inputs and is not counted as proved"
MIX = "the functions under contract are proved for all inputs (real arithmetic); functions outside the verifier's reach are decided by a bounded check with real code, labelled bounded in the evidence"
# id -> (level, note)
T = {
 "C01": ("proof", PROOF), "C02": ("proof", PROOF), "C03": ("proof", PROOF), "C04": ("proof", PROOF),
}
NA = {}
exec(open(os.path.join(V, "tools", "levels.py")).read())
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []; na = []
for p in props:
    if p in T and os.path.exists("%s/harness/%s.cpp" % (V, p)):
        checks.append({"property": p, "quick_cmd": "python3-vt check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % p,
                       "technique": "contract-based deductive verification: contracts on the real functions, obligations generated from clang's AST of /repo on every run, discharged by z3/cvc5",
                       "level": T[p][0], "level_note": T[p][1]})
    else: na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
