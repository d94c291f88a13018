#!/usr/bin/env python3
"""Rewrites the "fixed" list of known-findings.json from /repo's fix: commits; PROP names their property.
Run by hand after a fix; no check runs it."""
import json
import os
import subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(V, 'known-findings.json')
PROP = json.load(open(os.path.join(V, 'tools', 'fixprops.json')))
out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'f05a8e8..HEAD'],
                     capture_output=True, text=True, check=True).stdout
d = json.load(open(F)) if os.path.exists(F) else {'findings': []}
fixed = []
for l in out.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        key = s[5:]
        if key not in PROP:
            print('no property for:', key)
            continue
        fixed.append('fixed: property=%s %s %s' % (PROP[key], h, key))
json.dump({'findings': d['findings'], 'fixed': fixed}, open(F, 'w'), indent=1, ensure_ascii=False)
open(F, 'a').write('\n')
