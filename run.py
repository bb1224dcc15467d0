#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys, json, argparse
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, os.path.join(ROOT, "checks"))
import vrun
from registry import CHECKS

ap = argparse.ArgumentParser()
ap.add_argument("id")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
ap.add_argument("--replay")
a = ap.parse_args()
if a.id == "setup":
    tg = {}
    for c in CHECKS.values():
        for st in c["stages"]:
            for m, ts in st.targets().items():
                tg.setdefault(m, set()).update(ts)
    for m, ts in tg.items():
        vrun.build(m, sorted(ts))
    sys.exit(0)
rep = None
if a.replay:
    with open(a.replay) as f:
        rep = json.load(f)
try:
    rc = vrun.run_check(a.id, CHECKS[a.id], a.tier, a.seed, rep)
except vrun.HarnessError as e:
    vrun.log("ERROR:", e)
    rc = 3
sys.exit(rc)
