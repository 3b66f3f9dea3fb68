#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CC = "src/api/pdc_client_connect.c"
SM = "src/server/pdc_server_metadata.c"
SR = "src/server/pdc_server.c"
TESTS = "The five tests that run here exercise "
E2E_NOTE = ("TLC explores the specification exhaustively for a small instance and generates random behaviours of a larger one; "
            "each is run on real clients and servers built from /repo over a stand-in transport, and the recorded calls and "
            "results are validated by TLC against the specification.  Sampled, not exhaustive, on the implementation side.")
TECH = "TLA+ specification (TLC), generated behaviours replayed on the real code, recorded traces validated by TLC"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, note=None, tech=TECH,
         level="model_checking", claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[{"name": a, "where": b} for a, b in mech],
                               **({"state": state} if state else {}), **({"observe_at": observe} if observe else {})),
                  note=note or E2E_NOTE, tech=tech, level=level, claimed=claimed, reason=reason))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as h:
    for p in P:
        h.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in P if p["claimed"]],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]]}
with open(os.path.join(V, "MANIFEST.json"), "w") as h:
    json.dump(m, h, indent=1)
    h.write("\n")
