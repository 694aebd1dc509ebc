"""developer entry point: python3-vt vc/dbg.py PROP [filter]"""
import env      # noqa
import importlib
import json
import pkgutil
import sys
import os
from unit import UNITS, run_unit
for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if f.startswith("u_") and f.endswith(".py"):
        importlib.import_module(f[:-3])
if __name__ == "__main__":
    flt = sys.argv[2] if len(sys.argv) > 2 else ""
    tier = os.environ.get("VERIF_TIER", "quick")
    for u in UNITS.get(sys.argv[1], []):
        if flt not in u.name:
            continue
        for cfg in (u.quick if tier == "quick" else u.thorough)[int(os.environ.get("SKIP", "0")):int(os.environ.get("SKIP", "0"))+int(os.environ.get("NCFG", "99"))]:
            r = run_unit(u, cfg, budget=float(os.environ.get("BUDGET", "120")))
            print(r["unit"], r["status"], r["wall"], "s paths", r["stats"].get("paths"), "obl", r["stats"].get("obligations"),
                  "inv", r["stats"].get("inv_obligations"), "loops", r["invariants"], "conc", r["stats"].get("conc_ends"), "/", r["stats"].get("conc_runs"))
            if r["status"] != "proved":
                d = r["detail"]
                print("   ", json.dumps(d, default=str)[:3000])
                if "trace" in r:
                    print(r["trace"])
