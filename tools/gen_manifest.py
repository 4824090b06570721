#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(root, 'tools', 'manifest_table.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in T:
        tech, note = T[p]
        checks.append(dict(property=p, quick_cmd=f"bash check.sh {p} quick", thorough_cmd=f"bash check.sh {p} thorough",
            technique=tech, level="exploration", level_note=note, evidence_file=f"evidence/{p}.json"))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check built for it yet")))
m = dict(version=1, setup_cmd="bash check.sh build", checks=checks, not_applicable=na,
    notes="All checks live in harness/ (Go, rapid). They use only the public API of awcullen/opcua plus an independent protocol stack, so no hooks are needed in /repo.")
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
