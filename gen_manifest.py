#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and sim/checks.json (keeps them in step)."""
import json, os
from props import PROPS
H = os.path.dirname(os.path.abspath(__file__))
cfg = json.load(open(H + "/sim/checks.json")); na = cfg["not_applicable"]
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "QLPEPS_VERIF_SIM", "enable": "none needed: the simulator replaces <mpi.h>, qlten and the C library calls at include and link time; no hook was added to /repo", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": cfg.get("notes", "")}
with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS:
        i = p["id"]
        if i not in cfg["checks"] and i not in na: continue
        assert len(p["title"]) <= 80, i
        f.write(json.dumps(p) + "\n")
        if i in cfg["checks"]:
            c = cfg["checks"][i]
            m["checks"].append({"property": i, "quick_cmd": "python3 /verif/run.py check %s quick" % i, "thorough_cmd": "python3 /verif/run.py check %s thorough" % i,
                                "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and random streams of the real library running as fibers over a simulated MPI/disk/clock/RNG",
                                "level": cfg["levels"].get(i, "exploration"), "level_note": c["note"]})
        else: m["not_applicable"].append({"property": i, "reason": na[i]})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
