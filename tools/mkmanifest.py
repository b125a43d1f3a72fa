#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing: generated point sequences through all writer x reader pairs, bit-exact round-trip oracle, checked and ASan builds",
    "C02": "property-based testing: differential vector read vs per-point read on generated messages, checked and ASan builds",
    "C03": "property-based testing: generated foreign messages against an independent reference decoder",
    "C04": "property-based testing: written messages decoded by an independent decoder of the PointCloud2 description",
    "C05": "structured fuzzing of malformed messages with a reference bounds oracle under AddressSanitizer and overflow checks",
    "C06": "property-based testing: fault-injected messages against a reference fault judge",
    "C07": "model-based testing: generated setter histories of the builder against a reference acceptance model",
    "C08": "stateful model-based testing: operation histories on point iterators against a double-ended queue model",
    "C09": "differential property-based testing: generated rayon pipelines against the same sequential pipelines",
    "C10": "property-based testing: write as one type, read as another, subset oracle",
    "C11": "property-based testing: generated messages converted to ROS crate types and back, field-by-field oracle",
    "C12": "property-based testing: serde round trips through several formats, bit-exact oracle",
    "C13": "generated-program testing: random struct definitions compiled with the derive and checked against rustc's own layout and a reference description",
    "C14": "property-based testing: generated point values against constructor, accessor, nalgebra and memory-layout oracles",
    "C15": "stateful model-based testing: channel-write histories against a three-byte model",
    "C16": "property-based testing: generated scalars and datatype codes against the language's own conversions",
    "C17": "boundary-value property-based testing: generated sizes around the 32-bit limits, exact oracle",
    "C18": "differential testing: one generated case transcript across feature configurations, and enumeration of all feature sets",
    "C19": "property-based testing under a counting allocator: generated messages and use histories, holdings and peak against a bound from the input's size",
    "C20": "stateful model-based testing: histories of readers, adaptor flows, writers and message edits over a pool of clouds, against a model on plain values",
    "C21": "stateful model-based testing: generated histories run concurrently in threads and pool jobs, each against its own sequential model, checked and ASan builds",
}
NOTE = {
    "*": "Generated-input search with fixed case counts per seed; held means no counterexample among the explored cases, whose distribution is in the evidence file.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ready = [p["id"] for p in props if p["id"] in TECH and (os.path.exists(f"{V}/harness/src/props/{p['id'].lower()}.rs") or os.path.exists(f"{V}/checks/{p['id'].lower()}.py") or p["id"] in ("C11", "C18"))]
m = {
    "version": 1,
    "setup_cmd": "python3 checks/setup.py",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"python3 checks/run.py {i} quick",
            "thorough_cmd": f"python3 checks/run.py {i} thorough",
            "technique": TECH[i],
            "level": "exploration",
            "level_note": NOTE.get(i, NOTE["*"]),
        }
        for i in ready
    ],
    "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in ready],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed:", ready)
