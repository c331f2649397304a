#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks present in the harness. All of it is kept here."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rules = json.load(open(os.path.join(V, "rules.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = set()
for f in glob.glob(os.path.join(V, "harness", "*_test.go")):
    have |= set(re.findall(r'checks\["(C\d+)"\]', open(f).read()))
tech = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "the check is not built yet"})
        continue
    t = tech.get(i, {})
    checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                   "technique": t.get("technique", "runtime monitoring against a reference model"), "level": "exploration",
                   "level_note": t.get("note", "Held on the executions explored, see coverage in the evidence file. Assumes the model in the harness and the third-party libraries as built.")})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup",
           "hooks": {"guard": "none (the checks instrument a copy through go build -overlay)", "enable": "run.py writes instrumented copies of the files of /repo and an overlay file with harness/instr; /repo itself has no hooks", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
