#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if os.path.exists(f):
        m = importlib.import_module('checks.' + i.lower())
        checks.append({'property': i, 'quick_cmd': 'python3 run.py ' + i,
                       'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                       'technique': getattr(m, 'TECHNIQUE', 'runtime monitoring: generated workloads, log checked online against an independent model'),
                       'level': getattr(m, 'LEVEL', 'exploration'),
                       'level_note': getattr(m, 'NOTE', m.RULE)})
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
