#!/usr/bin/env python3
"""writes MANIFEST.json from checkconf.py"""
import json, os, sys
sys.dont_write_bytecode = True
from checkconf import PROPS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "./check --setup",
    "hooks": {"guard": "none", "enable": "No hooks in /repo are needed: the simulator replaces entry points of the C and C++ libraries (threads, locks, clocks, files, allocation) and the memory access callbacks of -fsanitize=thread at link time; /repo's headers are compiled unchanged.", "source_commits": []},
    "checks": [{
        "property": p,
        "quick_cmd": "./check %s quick" % p,
        "thorough_cmd": "./check %s thorough" % p,
        "technique": PROPS[p].get("technique", "deterministic simulation: seeded search over schedules, clocks and injected faults"),
        "level": PROPS[p].get("level", "exploration"),
        "level_note": PROPS[p]["note"],
        "evidence_file": "evidence/%s.json" % p,
    } for p in ids if p in PROPS],
    "not_applicable": [{"property": p, "reason": NOT_APPLICABLE[p]} for p in ids if p not in PROPS],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
