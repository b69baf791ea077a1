#!/usr/bin/env python3
# Writes MANIFEST.json from props.py.
import json, sys
import os; R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
virt = "runtime monitoring of the real code under a controlled scheduler with virtual time and a happens-before/heap monitor; online oracle per property"
nat = "ThreadSanitizer, AddressSanitizer, LeakSanitizer and UBSan on native threads, plus vector-clock race and heap monitors under a controlled scheduler with fault injection"
note = ("Seeded random exploration: holds on every execution observed (see evidence for executions, distinct schedules and monitored events); not a proof. "
        "Trusts the modelled pthread/clock/heap semantics of rt/rt.cpp and sequentially consistent interleavings plus happens-before checking.")
checks = []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=PROPS[i].get("technique", nat if i == "C31" else virt), level="exploration", level_note=note))
na = [dict(property=i, reason="check under construction") for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na), open(R + "/MANIFEST.json", "w"), indent=1)
