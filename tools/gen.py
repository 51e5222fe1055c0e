#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # properties with a check
N = []   # properties without one: (property, reason)

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append(dict(p={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
             "why_tests_cant": why, "anchors": a}, technique=technique, note=note))

def na(id, title, statement, over, text, why, files, mech, reason):
    N.append(dict(p={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
             "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}, reason=reason))

exec(open(os.path.join(V, "tools", "properties.py")).read())

for x in P + N:
    for f in x['p']['anchors']['files']:
        assert os.path.exists('/repo/' + f), (x['p']['id'], f)
P.sort(key=lambda x: x["p"]["id"]); N.sort(key=lambda x: x["p"]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in sorted(P + N, key=lambda x: x["p"]["id"]):
        f.write(json.dumps(x["p"]) + "\n")
m = {"version": 1, "setup_cmd": "bash build.sh",
     "checks": [{"property": x["p"]["id"], "quick_cmd": "bash check.sh " + x["p"]["id"],
                 "thorough_cmd": "bash check.sh " + x["p"]["id"],
                 "evidence_file": "evidence/%s.json" % x["p"]["id"], "technique": x["technique"], "level": "other",
                 "level_note": x["note"]} for x in P],
     "not_applicable": [{"property": x["p"]["id"], "reason": x["reason"]} for x in N],
     "notes": "One binary (checker/, built by build.sh) decides every property from /repo's current source; nothing of /repo is executed. Known and fixed defects: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
import re
d = open(os.path.join(V, "tools", "design.md")).read()
what = {}
for f in sorted(os.listdir(os.path.join(V, "checker"))):
    if f.endswith(".go"):
        for a, b in re.findall(r'ID:\s*"(C\d+)".*?What:\s*"((?:[^"\\\\]|\\\\.)*)"', open(os.path.join(V, "checker", f)).read(), re.S):
            what[a] = b
for x in P:
    i = x["p"]["id"]
    d += "\n**%s %s.** %s. *Reach*: %s. *Analysed*: %s.\n" % (i, x["p"]["title"], what.get(i, "?"), x["p"]["quantifier"]["text"], "; ".join("%s (%s)" % (m["name"], m["where"]) for m in x["p"]["anchors"]["mechanism"]))
d += "\n## Not applicable\n"
for x in N: d += "- %s %s: %s\n" % (x["p"]["id"], x["p"]["title"], x["reason"])
d += "\n## Planted bugs (seeded/) and the checks that catch them\n\n| bug | property | caught by | needs |\n|---|---|---|---|\n"
cf = os.path.join(V, "tools", "caught.json"); caught = json.load(open(cf)) if os.path.exists(cf) else {}
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    mt = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    d += "| %s | %s | %s | %s |\n" % (b, mt["property"], ", ".join(caught.get(b, [])) or "none", mt["needs"])
d += open(os.path.join(V, "tools", "design_tail.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(d)
try:
    import jsonschema
    s = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(m, s)
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P + N: jsonschema.validate(x["p"], s)
    print("valid:", len(P), "checks,", len(N), "not applicable")
except ImportError:
    print("written (jsonschema not available)")
