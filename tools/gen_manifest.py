#!/usr/bin/env python3
"""Writes MANIFEST.json from props.PROPS and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in props.PROPS: continue
    p = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
        evidence_file=f'evidence/{i}.json', technique=p.get('technique', 'TLA+ specification explored by TLC; every behaviour replayed into the real code'),
        level=p['level'], level_note=p['note']))
na = [dict(property=i, reason=props.NOT_APPLICABLE.get(i, 'check not built yet')) for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='none', enable='no hooks are needed: the harness uses the public crates of /repo by path', source_commits=[]),
         checks=checks, not_applicable=na, notes='Specification language: TLA+ (TLC). See DESIGN.md.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
