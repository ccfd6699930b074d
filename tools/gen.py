#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, HOOK_COMMITS
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks, na = [], []
for p in PROPS:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f"./run.sh {p['id']} quick",
        'thorough_cmd': f"./run.sh {p['id']} thorough",
        'technique': p.get('technique', 'deterministic simulation with fault injection: seeded search over schedules, faults and workloads'),
        'level': 'exploration',
        'level_note': p['note'],
        'evidence_file': f"evidence/{p['id']}.json",
    })
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'hooks': {'guard': 'bfffs_dst (a rustc --cfg)', 'enable': 'sim/core/build.rs emits cargo:rustc-cfg=bfffs_dst when the simulator builds /repo/bfffs-core/src', 'source_commits': HOOK_COMMITS},
    'checks': checks, 'not_applicable': na,
    'notes': 'run.sh builds the simulator (sim/) against /repo, then searches; sim/target/debug/dst replay FILE reproduces a violation. See DESIGN.md.',
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
