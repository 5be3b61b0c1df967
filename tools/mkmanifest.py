#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(l) for l in open('properties.jsonl')]
TECH = "deterministic simulation with fault injection: seeded search"
notes = json.load(open('tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in notes['not_applicable']:
        na.append({"property": i, "reason": notes['not_applicable'][i]})
        continue
    n = notes['checks'].get(i)
    if n is None:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH + "; " + n[0],
        "level": "exploration",
        "level_note": n[1],
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash check.sh build",
    "hooks": {"guard": "none", "enable": "no hooks in the repository: every check instruments a copy of the working tree (sim/instr)", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. Findings in known-findings.txt."
}, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
