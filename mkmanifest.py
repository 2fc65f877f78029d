#!/usr/bin/env python3
"""regenerates MANIFEST.json from sa/registry.py and the list below"""
import sys, json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'sa'))
import registry
NA = {
 'C30': 'The statement is about the output of running the generator program; deciding it needs the generator executed (or proved), not its source inspected. What the committed module must look like is decided by C10-C13 and C25.',
 'C31': 'Running time as a function of input length is a runtime quantity no sound static argument in reach bounds for this code (hash maps, allocator, element types); the structural part (progress of every wire-driven loop, recursion) is C03.',
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.RULES:
        r = registry.RULES[i]
        checks.append({'property': i, 'quick_cmd': 'bash check.sh ' + i, 'thorough_cmd': 'bash check.sh %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': r.technique, 'level': 'other', 'level_note': r.note})
    else: na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
