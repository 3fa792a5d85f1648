#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, subprocess
from props import P
from checks import CHECKS, HOOK_COMMITS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in P]
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": [],
    "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE],
    "notes": "Contract-based deductive verification with Verus on functions extracted mechanically from /repo on every run; see DESIGN.md.",
}
if HOOK_COMMITS:
    m["hooks"] = {"guard": "--cfg coerce_verif", "enable": "RUSTFLAGS='--cfg coerce_verif' (set by check.py when it builds /verif/harness)",
                  "source_commits": HOOK_COMMITS}
na = {a for a, _ in NOT_APPLICABLE}
for i in ids:
    if i in na:
        continue
    c = CHECKS[i]
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", "deductive verification (Verus contracts on functions extracted from /repo on each run); failed obligations replayed by executable contracts on the compiled crate"),
        "level": c.get("level", "proof"),
        "level_note": c["note"],
    })
assert set(CHECKS) == set(ids) - na, set(CHECKS) ^ set(ids)
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")


# ---- DESIGN.md: the parts that follow from the tables -----------------------------------------
import os, re
out = ["\n## Per property\n", "For every property: *specified* = what the contracts say and on what; *bounded* = what the executable contracts\nenumerate; *assumed* = what is left unchecked (the mechanical list of assumed std contracts and opaque types is\nin each evidence file under trusted_base).\n"]
for p in P:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("* units: %s; functions under contract: %s" % (", ".join("specs/%s.rs" % u for u in c["units"]), "; ".join("`%s`" % f for f in c["functions"]) if "functions" in c else "all of the unit"))
    out.append("* specified: " + c["note"])
    out.append("* bounded: suite %s%s" % (", ".join(c["suites"]), ": " + c["bounded"] if c.get("bounded") else ""))
    if c.get("assumptions"):
        out.append("* assumed: " + "; ".join(c["assumptions"]))
    out.append("* beyond the tests: " + p["why_tests_cant"] + "\n")
seeds = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
caught = json.load(open("caught.json")) if os.path.exists("caught.json") else {}
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    seeds.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], caught.get(d, "?")))
t = open("DESIGN.md").read()
for key, body in (("properties", "\n".join(out)), ("seeds", "\n".join(seeds))):
    t = re.sub(r"<!-- generated: %s -->.*?<!-- end generated -->" % key, lambda m: "<!-- generated: %s -->\n%s\n<!-- end generated -->" % (key, body), t, flags=re.S)
open("DESIGN.md", "w").write(t)
