#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, level_note, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state:
        a["state"] = state
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}, level_note))


c, s, t, m, i2, i3 = ("cartographer/common/", "cartographer/sensor/", "cartographer/transform/",
                      "cartographer/mapping/", "cartographer/mapping/internal/2d/", "cartographer/mapping/internal/3d/")
mi, io = "cartographer/mapping/internal/", "cartographer/io/"

exec(open(os.path.join(V, "tools", "props_list.py")).read())

NA = [
    {"property": "N01", "reason": "cloud (gRPC server/client, upload queue): async_grpc is not installed, so the code can neither be compiled nor run here; a specification without a binding to the code would decide nothing"},
]
done = [p for p in P if os.path.exists(V + "/checks/%s.py" % p[0]["id"])]
with open(V + "/properties.jsonl", "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
M = {"version": 1,
     "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p["id"],
                 "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                 "technique": "TLA+ specification model-checked with TLC; the real code's recorded behaviours are validated against the specification by TLC (trace validation), on generated inputs and explored schedules",
                 "level": "model_checking", "level_note": note} for p, note in done],
     "not_applicable": NA + [{"property": p["id"], "reason": "check not built yet"} for p, _ in P
                             if not os.path.exists(V + "/checks/%s.py" % p["id"])]}
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(done), "claimed")
