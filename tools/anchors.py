#!/usr/bin/env python3
"""Do all anchors of properties.jsonl exist in /repo?"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    w = list(p["anchors"]["files"]) + [m["where"] for m in p["anchors"]["mechanism"]] + [m["where"] for m in p["anchors"].get("state", [])]
    for a in w:
        f, _, s = a.partition(":")
        q = "/repo/" + f
        if not os.path.exists(q):
            print(p["id"], "no file", a)
        elif s and not re.search(r"\b%s\b" % re.escape(s), open(q, errors="replace").read()):
            print(p["id"], "no symbol", a)
