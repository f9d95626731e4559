#!/usr/bin/env python3
"""Writes MANIFEST.json and checks it, properties.jsonl and the evidence files against the schemas."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("TLC explores the specification (Meter.tla) exhaustively with small numbers within the bounds listed in the evidence file, and the same "
        "specification, with IEEE doubles for numbers, judges every return code and every result of recorded executions of the real crate: "
        "behaviours generated from the specification and randomised ones. Trusted: TLC, the Java arithmetic (checked against its TLA+ "
        "definitions), the executor. The executions are a sample of all inputs.")
SPECIAL = {}
checks = [dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']}",
               thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {p['id']}",
               technique="TLA+ specification checked with TLC; conformance of recorded executions checked with TLC",
               level="model_checking", level_note=NOTE + SPECIAL.get(p["id"], "")) for p in props]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[],
         notes="TLA+/TLC. No hooks in /repo are needed: every property is about what public calls return.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    S = "/root/.vp/"
    jsonschema.validate(m, json.load(open(S + "MANIFEST.schema.json")))
    for p in props:
        jsonschema.validate(p, json.load(open(S + "PROPERTIES.schema.json")))
    e = os.path.join(V, "evidence")
    for f in os.listdir(e):
        jsonschema.validate(json.load(open(os.path.join(e, f))), json.load(open(S + "EVIDENCE.schema.json")))
    print("valid")
except ImportError:
    print("jsonschema is not available here; run with python3-vt")
