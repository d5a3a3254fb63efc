#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        models = ', '.join(m for m, _ in c.get('models', []) + c.get('generators', []))
        checks.append(dict(property=p, quick_cmd='bin/check %s quick' % p, thorough_cmd='bin/check %s thorough' % p,
            technique='TLA+ specification, TLC trace validation of the real library (%s)%s' % (
                c['trace'], '; design model checked exhaustively by TLC (%s)' % models if models else ''),
            level='model_checking',
            level_note='Every recorded execution is checked by TLC against the TLA+ specification (%s); executions are '
                       'sampled over the input space, design models are exhaustive within their constants. Assumes: %s.' % (
                           c['rule'], '; '.join(c.get('assumptions', [])) or 'nothing further')))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'check under construction')))
json.dump(dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
               notes='TLA+/TLC; black-box recording of the public API, no hooks in /repo. See DESIGN.md.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
