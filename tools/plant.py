#!/usr/bin/env python3
"""plant.py ID PROP [--edit EDIT.py]: confirms a planted bug in seeded/ID.
Applies seeded/ID/patch.diff to /repo, builds, runs the stable tests, the demonstration and the quick check of the
property, undoes it, and runs the demonstration on the clean tree.  With --new FILE OLD NEW... see tools below."""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    i = sys.argv[1]
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    notest = '--notest' in sys.argv
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    out = {}
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d)
        assert r.returncode == 0, r.stderr
        r = sh('bash /opt/vp/build.sh')
        out['build'] = r.returncode
        if r.returncode:
            print(r.stdout[-1500:], r.stderr[-1500:])
        if not notest and not r.returncode:
            sh('bash /opt/vp/test.sh /tmp/plant-out.json')
            b = json.load(open('/opt/vp/BASELINE.json'))
            o = json.load(open('/tmp/plant-out.json'))
            out['lost tests'] = sorted(set(b['stable']) - set(o['passed']))[:5]
        r = sh('timeout 300 bash %s/demo.sh' % d, cwd=R)
        out['demo with'] = r.returncode
        out['demo out'] = (r.stdout + r.stderr)[-200:]
        r = sh('python3 run.py ' + prop, cwd=V)
        out['check'] = (r.returncode, r.stdout[:700], r.stderr[-300:])
    finally:
        sh('git -C /repo checkout -- .')
        sh('git -C /repo clean -fdq src libsrc include')
        sh('bash /opt/vp/build.sh')
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd=R)
    out['demo without'] = r.returncode
    if r.returncode:
        out['demo without out'] = (r.stdout + r.stderr)[-500:]
    ok = out['build'] == 0 and not out.get('lost tests') and out['demo with'] and not out['demo without']
    print(i, prop, 'VALID' if ok else 'INVALID', 'CAUGHT' if out['check'][0] == 1 else 'MISSED')
    print(json.dumps(out, indent=1) if not ok or '-v' in sys.argv or out['check'][0] != 1 else out['check'][1][:300])


main()
