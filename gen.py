#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import P, NOT_APPLICABLE
H = os.path.dirname(os.path.abspath(__file__))
with open(H + "/properties.jsonl", "w") as f:
    for p in P + [x for x in NOT_APPLICABLE if "statement" in x]:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": [p["observe"]], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 gen.py", "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo's sources as they are", "source_commits": []},
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P],
       "not_applicable": [{"property": x["id"], "reason": x["reason"]} for x in NOT_APPLICABLE]}
json.dump(man, open(H + "/MANIFEST.json", "w"), indent=1)

# the per-property part of DESIGN.md, between the two markers
D = H + "/DESIGN.md"
text = open(D).read()
a, b = "<!-- properties: written by gen.py -->\n", "<!-- end of properties -->\n"
if a in text and b in text:
    out = ""
    for p in P:
        bounds = []
        for s in p["stages"]:
            if s.get("bound") and s["bound"] not in bounds:
                bounds.append(s["bound"])
        more = "; ... (%d stages in all)" % len(bounds) if len(bounds) > 6 else ""
        out += "\n### %s %s\n\n* technique: %s\n* quantified over: %s\n* bounds: %s\n* oracle: %s; observed at: %s\n* why tests cannot: %s\n" % (
            p["id"], p["title"], p["technique"], p["qtext"], "; ".join(bounds[:6]) + more, p["note"], p["observe"], p["why"])
    new = text[:text.index(a) + len(a)] + out + "\n" + text[text.index(b):]
    if new != text:
        open(D, "w").write(new)
