"""C13: invalid programs are rejected at the right place, valid neighbours are accepted."""
import os
import random
import re
from vlib import core, badprog, target

RULE = ('one evaluation = one program with exactly one offence (exit status not 0, a diagnostic naming file and line, no output) or its valid neighbour (exit 0, output made); '
        'distinct = kind of offence x the way it is reached (plain, include, macro) x enclosing statement')
TECHNIQUE = 'runtime monitoring: generated programs with one planted offence and their valid twins; exit status, located diagnostics and created files observed'
MIN_EVALS = 4000
_tg = None


def case(seed, wd):
    _, _, i = seed.split('/')
    i = int(i)
    r = random.Random(seed)
    res = core.CaseResult()
    ent = badprog.E[i // 2 % len(badprog.E)]
    bad = i % 2 == 1
    p = badprog.BadProg(r, ent, bad)
    for n, t in p.files.items():
        os.makedirs(os.path.dirname(os.path.join(wd, n)) or wd, exist_ok=True)
        target.write(wd, n, t)
    mode = r.choice([['-c'], ['-c'], ['-S'], []])
    out = {'-c': 'p.o', '-S': 'p.s', '': 'a.out'}[mode[0] if mode else '']
    if r.random() < .5:
        mode, out = mode + ['-o', 'res.bin'], 'res.bin'
    before = set(os.listdir(wd))
    x = core.run2([_tg.xcc, *mode, 'p.c'], cwd=wd, timeout=20, env={'TMPDIR': wd})
    what = '%s [%s%s], xcc %s' % (ent[0], p.via, (' in ' + p.wrap) if p.wrap else '', ' '.join(mode))
    if x.timeout:
        res.inconclusive += 1
        return res
    files = dict(p.files)
    files['diagnostic.txt'] = x.err
    new = set(os.listdir(wd)) - before
    err = x.err.decode('utf-8', 'replace')
    res.evals = 1
    res.events = 1 + err.count('\n')
    if x.sig or 'Assertion' in err:
        res.bad('%s: the compiler dies: %s %s' % (what, x.brief(), err[:200]), files)
    elif not bad:
        if x.rc != 0:
            res.bad('%s: valid program rejected (%s): %s' % (what, x.brief(), target.first_error(x.err)), files)
        elif out not in new:
            res.bad('%s: exit 0 but no %s' % (what, out), files)
    else:
        f, lines = p.where
        if x.rc == 0:
            res.bad('%s: offence accepted: %s' % (what, p.text), files)
        elif new:
            res.bad('%s: rejected, but %s left behind' % (what, sorted(new)), files)
        else:
            locs = [(a, int(b)) for a, b in re.findall(r'^(?:\./)?([^\s(]+)\((\d+)\):(?! *warning)', err, re.M)]
            locs = [(os.path.relpath(a, wd) if a.startswith('/') else a, b) for a, b in locs]      # includes are named by their absolute path
            ok = any(a == f and b in lines or p.also and a == p.also[0] and b in p.also[1] for a, b in locs)
            if not ok:
                res.bad('%s: diagnostic expected at %s(%s), got %s: %s' % (what, f, '/'.join(map(str, sorted(lines))), locs[:4], p.text), files)
    if not res.violations:
        res.distinct.add((ent[0], p.via, p.wrap if bad else '', bad))
        if res.sample is None:
            res.sample = {'what': what, 'diagnostic': err[:200]}
    return res


def check(ck):
    global _tg
    _tg = target.X64()
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(len(badprog.E) * 2 * 16, len(badprog.E) * 2 * 200))])
