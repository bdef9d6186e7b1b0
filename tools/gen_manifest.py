#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
from registry import PROPS
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in PROPS:
        na.append(dict(property=i, reason='its specification and conformance check are not built yet'))
        continue
    d = PROPS[i]
    models = ', '.join(dict.fromkeys(m['module'] for m in d.get('models', []) + d.get('gens', [])))
    checks.append(dict(
        property=i,
        quick_cmd='bin/check %s --tier quick' % i,
        thorough_cmd='bin/check %s --tier thorough' % i,
        technique='TLA+ specification checked with TLC (%s); traces recorded from the real code replayed against it (%s)' % (models, d.get('trace') or ', '.join(p['trace'] for p in d['parts'])),
        level='model_checking',
        level_note='exhaustive TLC check of the model at small constants; recorded executions of the real code, generated from the model and from seeded drivers, '
                   'are judged by the same specification at the real constants; not a proof for every input. ' + '; '.join(d.get('assumptions', []))))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
