#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks, and why the others are not."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
RACE = "race detector; "
T = {  # id: (technique, level, note)
 "S01": ("differential runtime monitoring against bytes.Reader, "+RACE+"random read/seek/ReadAt histories", "exploration", "every call of the explored histories is compared with a reader over the concatenation; bounded sizes and history lengths"),
 "S02": ("runtime monitoring with mis-sized and failing sources, close accounting", "fault_enumeration", "discrepancy position, direction and error kind are enumerated over generated segment lists; sources are scripted"),
 "S03": ("differential runtime monitoring with source open/close log", "fault_enumeration", "bytes, opens and closes of every explored read history are checked; sources fail at generated points"),
 "S04": ("runtime monitoring of source reads against the cancellation instant, "+RACE+"injected errors", "exploration", "cancellation is placed before, during and between reads"),
 "H01": ("adversarial-server runtime monitoring: every returned byte checked against the pinned version", "fault_enumeration", "a scripted transport deviates in one of the enumerated ways at generated requests; a real HTTP client is used in H02"),
 "H02": ("differential runtime monitoring over loopback HTTP, "+RACE+"body, request and goroutine accounting, injected stalls", "exploration", "schedules are those of the Go scheduler under load with injected stalls"),
 "H03": ("taint monitoring: planted secrets searched in every error and its unwrap tree", "fault_enumeration", "every failure stage is enumerated with random secret places"),
 "F01": ("runtime monitoring of the object store under injected faults, HTTP loopback server, "+RACE+"temp file and body accounting", "fault_enumeration", "faults per request are random; the store model is trusted"),
}
exec(open(os.path.join(here, "tools/manifest_more.py")).read()) if os.path.exists(os.path.join(here, "tools/manifest_more.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        t, l, n = T[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "check.sh builds the monitors from /repo's working tree with the race detector; no hooks in /repo. VERIF_SEED, VERIF_PART and VERIF_CASE replay a case."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
