#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below and from
the harness files present (a property is claimed iff it has a harness)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
lines = []
checks, na = [], []
for p in PROPS:
    files = ["include/daw/" + f for f in p["files"]]
    rec = {
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["forall"]},
        "why_tests_cant": p["why"],
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": "include/daw/" + w} for n, w in p["mech"]],
            "observe_at": p["observe"],
            "hook_needed": None,
        },
    }
    assert len(p["title"]) <= 80, p["title"]
    lines.append(json.dumps(rec))
    if glob.glob(os.path.join(V, "harness", p["id"] + "_*.cpp")):
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 tools/run_check.py %s quick" % p["id"],
            "thorough_cmd": "python3 tools/run_check.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["tech"],
            "level": "exploration",
            "level_note": p["note"],
        })
    else:
        na.append({"property": p["id"], "reason": p.get("na", "check under construction")})
for p in PROPS:
    for f in p["files"]:
        if not os.path.exists("/repo/include/daw/" + f):
            print("missing file", p["id"], f)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Header-only library: the checks compile harnesses with sanitizers against /repo/include; no hooks are needed.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    sm = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(man, sm)
    sp = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in lines: jsonschema.validate(json.loads(l), sp)
    print("valid", len(checks), "checks", len(na), "not claimed")
except ImportError:
    print("written (no jsonschema)", len(checks), len(na))

# DESIGN.md: list of planted bugs between the markers
sd = os.path.join(V, "seeded")
if os.path.isdir(sd):
    rows = []
    for n in os.listdir(sd):
        try:
            m = json.load(open(os.path.join(sd, n, "meta.json")))
        except OSError:
            continue
        rows.append((m["property"], n, m["needs"].strip()))
    rows.sort()
    text = "\n".join(f"* {p} `{n}` - {w}" for p, n, w in rows)
    dp = os.path.join(V, "DESIGN.md")
    d = open(dp).read()
    a, b = "<!-- seeds begin -->", "<!-- seeds end -->"
    i, j = d.index(a) + len(a), d.index(b)
    open(dp, "w").write(d[:i] + "\n" + text + "\n" + d[j:])
