#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and checks/registry.py"""
import os, sys, json, subprocess
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("lib", "checks", "tools"):
    sys.path.insert(0, os.path.join(ROOT, d))
from props import P
from registry import CHECKS
P.sort(key=lambda p: p["id"])
import jsonschema
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        jsonschema.validate(p, ps)
        for fn in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + fn), fn
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
NEEDS_MYSQL = ("the guarantee lives in SQL statements and transactions executed by a MySQL server (stored functions, row locks, isolation); no "
    "MySQL server (mysqld) is installed here and nothing can be fetched, so there is no execution of these transactions to observe")
NA = {"C34": NEEDS_MYSQL, "C35": NEEDS_MYSQL}
checks, na = [], []
for p in P:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check has been built for it yet")})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": c["technique"] or "runtime monitoring: ASan+UBSan build of the real code, online reference-oracle comparison",
                   "level": c["level"], "level_note": c["note"] or "Holds on every execution explored: " + c["rule"]})
assert not set(CHECKS) - set(p["id"] for p in P), set(CHECKS) - set(p["id"] for p in P)
commits = []
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "SPLINTERMAIL_VERIF", "enable": "the checks configure their own build of /repo with -DCMAKE_C_FLAGS=-DSPLINTERMAIL_VERIF", "source_commits": commits},
     "checks": checks, "not_applicable": na,
     "notes": "python3 run.py ID --replay FILE reruns one recorded violation verbosely. Checks build in /verif/build/<mode>."}
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
