#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py and props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import catalog, props
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for c in catalog.CAT:
        f.write(json.dumps({"id": c["id"], "title": c["title"], "statement": c["statement"], "quantifier": {"over": c["over"], "text": c["text"]}, "why_tests_cant": c["why"],
                            "anchors": {"files": c["files"], "state": [{"name": a, "meaning": b, "where": w} for a, b, w in c["state"]], "mechanism": [{"name": a, "where": w} for a, w in c["mech"]], "hook_needed": None}}) + "\n")
checks, na = [], []
for c in catalog.CAT:
    if c["na"] or c["id"] not in props.PROPS:
        na.append({"property": c["id"], "reason": c["na"] or "check not built yet"})
        continue
    p = props.PROPS[c["id"]]
    real = any(u.get("opts", {}).get("logic") == "real" or any(e.get("opts", {}).get("logic") == "real" for e in u["entries"]) for u in p["units"])
    checks.append({"property": c["id"], "quick_cmd": f"python3 driver/check.py {c['id']} --tier quick", "thorough_cmd": f"python3 driver/check.py {c['id']} --tier thorough",
                   "technique": "symbolic execution of the LLVM IR of the real code + z3 (" + ("real arithmetic with rounding error terms" if real else "bit-vectors") + "), native replay of counterexamples",
                   "level": "model_checking",
                   "level_note": "Bounded: " + p["bounds"] + ". " + ("Outside: " + p["outside"] + ". " if p.get("outside") else "") + "Within the bounds every feasible path and every input value is covered by solver queries; trusts clang's IR, the engine in engine/ (sampled paths are replayed natively and compared), and z3."})
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unchanged", "source_commits": []}, "checks": checks, "not_applicable": na,
           "notes": "Repairs of genuine defects are listed in known-findings.json."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

# tables of DESIGN.md
import glob, re, oracles
cat = {c["id"]: c for c in catalog.CAT}
tab = "| id | oracle | bounds (quick; thorough deeper) | cost | why the tests cannot settle it |\n|---|---|---|---|---|\n"
for i in sorted(props.PROPS):
    p, (o, cost) = props.PROPS[i], oracles.ORACLES[i]
    tab += f"| {i} {cat[i]['title']} | {o} | {p['bounds']}{' - outside: ' + p['outside'] if p.get('outside') else ''} | {cost} | {cat[i]['why']} |\n"
fixes = "".join("- " + x[len("fixed: "):] + "\n" for x in json.load(open(os.path.join(V, "known-findings.json")))["fixed"])
seeds = "| seed | property | needs | breaks |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    seeds += f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n"
D = os.path.join(V, "DESIGN.md")
s = open(D).read()
for name, text in (("table", tab), ("fixes", fixes), ("seeds", seeds)):
    s = re.sub(r"(<!-- %s: written by driver/gen.py -->\n).*?(<!-- end of %s -->)" % (name, name), lambda m: m[1] + text + m[2], s, flags=re.S)
open(D, "w").write(s)
