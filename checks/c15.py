"""C15: the same input gives the same bytes, whatever surrounds the tools, also from tools built by xcc itself."""
import os
import random
import re
from vlib import core, mutate, target
from vlib.cexpr import LP64
from vlib.exprprog import Prog
from vlib.flow import FlowProg
from vlib.objprog import ObjProg
from vlib.staticprog import StaticProg
from vlib.constprog import ConstProg
from vlib.linkgraph import Graph

RULE = ('one evaluation = one output (preprocessed text, assembly, object, executable, or diagnostics with exit status) of one input made by the tools '
        'built with gcc in another environment, directory and heap state, or by the tools built with xcc itself, compared byte for byte with the first run; '
        'distinct = kinds of inputs x stages x outcomes x diagnostics')
TECHNIQUE = 'runtime monitoring: repeated runs under perturbed environments and heaps, and of the self-compiled tools, compared byte for byte'
MIN_EVALS = 1500
_d = _g = _corpus = None
STAGES = {'E': ['-E'], 'S': ['-S', '-o', 'p.s'], 'c': ['-c', '-o', 'p.o'], 'x': ['-o', 'p.exe'], 'So': ['-S', '-o', '-']}
OUT = {'E': None, 'S': 'p.s', 'c': 'p.o', 'x': 'p.exe', 'So': None}


def gen(r):
    """-> kind, {file: text}, main file"""
    k = r.randrange(14)
    if k < 2:
        return 'int', Prog(r, LP64, nfuncs=2, nstmts=10).source
    if k < 4:
        return 'flo', Prog(r, LP64, floats=True, nfuncs=2, nstmts=10).source
    if k < 5:
        return 'flow', FlowProg(r, nfuncs=2).source
    if k < 7:
        return 'obj', ObjProg(r, LP64, nfuncs=2, nstmts=10).source
    if k < 8:
        return 'static', StaticProg(r, LP64, nobj=10).source
    if k < 9:
        return 'const', ConstProg(r, LP64, n=10).source
    if k < 13:
        t = ''.join(r.choice(_corpus) for _ in range(r.choice([1, 2, 3])))
        if r.random() < .7:
            t = mutate.mutate(r, t, r.choice([mutate.CFRAG, mutate.PPFRAG]), _corpus)
        return 'piece', t
    # floating constants: their text is converted by the C library of the tools
    o = []
    for i in range(30):
        m = r.choice(['%d' % r.getrandbits(r.choice([8, 30, 64, 90])), '%d.%d' % (r.getrandbits(20), r.getrandbits(60)), '0.%s%d' % ('0' * r.randrange(30), r.getrandbits(40)), '.5', '5.'])
        e = r.choice(['', 'e%d' % r.randrange(-330, 309), 'E+%d' % r.randrange(40), 'e-%d' % r.randrange(60)])
        if not e and '.' not in m:
            m += '.'
        o.append('%s x%d = %s%s%s;' % (r.choice(['double', 'float']), i, r.choice(['', '-', '1+']), m + e, r.choice(['', 'f', ''])))
    return 'floats', '\n'.join(o) + '\n'


def env(r):
    e = {'MALLOC_PERTURB_': str(r.randrange(1, 256)), 'TZ': r.choice(['UTC', 'Asia/Tokyo', 'America/Lima']), 'HOME': '/nonexistent',
         'LANG': r.choice(['C', 'ja_JP.UTF-8', 'C.UTF-8']), 'LC_ALL': r.choice(['C', 'C.UTF-8']), 'USER': 'u%d' % r.randrange(99)}
    for i in range(r.randrange(60)):
        e['FILL%d' % i] = 'x' * r.randrange(200)
    return e


def norm(b, dirs):
    t = b.decode('latin-1')
    for d in dirs:
        t = t.replace(d, '<dir>')
    t = re.sub(r'\bgen2(xcc|cpp|cc1|as|ld)\b', r'\1', t)
    t = re.sub(r'<dir>/tmp/[\w.-]+', '<tmp>', t)
    return t


def one(xcc, wd, args, e=None):
    os.makedirs(wd + '/tmp', exist_ok=True)
    x = core.run2([xcc] + args, cwd=wd, env=dict(e or {}, TMPDIR=wd + '/tmp'), timeout=20)
    return x


def read(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def cutof(stage, pp):
    """How far the messages of the preprocessor and the compiler, which run side by side, can be told apart."""
    return False if stage == 'E' else True if pp.rc else None if pp.err else False


def compare(res, what, stage, a, b, fa, fb, da, db, files, kind, cut=False):
    """a, b: runs; fa, fb: output files; cut: the preprocessor fails, so what the compiler, which runs beside it, says of the
    beginning of its output before it is killed is a matter of timing: only the failure itself is compared;
    None: both may print, in any order"""
    if a.timeout or b.timeout:
        res.inconclusive += 1
        return
    res.evals += 1
    res.events += 2
    ea, eb = norm(a.err, [da, _d, _g]), norm(b.err, [db, _d, _g])
    oa, ob = norm(a.out, [da, _d, _g]), norm(b.out, [db, _d, _g])
    res.distinct.add((kind, stage, what.split()[0], a.rc, re.sub(r"[`'\"].*|\d+", '', ea.split('\n')[0].split(': ', 1)[-1])[:40]))
    crash = a.rc < 0 or a.rc >= 128 or 'Assertion' in ea
    fs = dict(files, **{'first.err': a.err, 'other.err': b.err, 'first.out': a.out, 'other.out': b.out})
    if fa is not None:
        fs['first.file'] = fa
    if fb is not None:
        fs['other.file'] = fb
    if crash:
        # the crash itself belongs to C12; here it only must not turn into success
        if b.rc == 0:
            res.bad('%s, stage %s: crash (%s) in the first run, success in the other' % (what, stage, a.brief()), fs)
        return
    if cut:
        if not a.rc or not b.rc:
            res.bad('%s, stage %s: the preprocessor fails, but exit status %s and %s' % (what, stage, a.brief(), b.brief()), fs)
    elif a.rc != b.rc:
        res.bad('%s, stage %s: exit status %s and %s: %s' % (what, stage, a.brief(), b.brief(), (eb or ea)[:200]), fs)
    elif ea != eb and not (cut is None and sorted(ea.split('\n')) == sorted(eb.split('\n'))):
        res.bad('%s, stage %s: diagnostics differ: %r and %r' % (what, stage, ea[:150], eb[:150]), fs)
    elif oa != ob:
        res.bad('%s, stage %s: standard output differs' % (what, stage), fs)
    elif fa != fb:
        n = next((i for i, (p, q) in enumerate(zip(fa or b'', fb or b'')) if p != q), min(len(fa or b''), len(fb or b'')))
        res.bad('%s, stage %s: output files differ at byte %d (sizes %s, %s)' % (what, stage, n, fa and len(fa), fb and len(fb)), fs)


def variants(r, wd):
    e = env(r)
    deep = os.path.join(wd, 'x' * r.randrange(1, 100), 'deep' * r.randrange(1, 9))
    return [('again in another place', _d + '/xcc', deep, e),
            ('self-compiled tools', _g + '/gen2xcc', os.path.join(wd, 'b'), env(r) if r.random() < .3 else {})]


def case(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    kind, text = gen(r)
    stages = ['E', 'c' if kind == 'piece' else 'x'] + [r.choice(['S', 'So'])]
    a = os.path.join(wd, 'a')
    target_dirs = [(None, _d + '/xcc', a, {})] + variants(r, wd)
    runs = []
    for what, xcc, d, e in target_dirs:
        os.makedirs(d, exist_ok=True)
        target.write(d, 'p.c', text)
        runs.append({s: (one(xcc, d, STAGES[s] + ['p.c'], e), read(os.path.join(d, OUT[s])) if OUT[s] else None) for s in stages})
        if r.random() < .1 and what is None:
            # simply again, into the same file
            for s in stages:
                y = one(xcc, d, STAGES[s] + ['p.c'], e)
                compare(res, 'repeated in place seed=%s %s' % (seed, kind), s, runs[0][s][0], y, runs[0][s][1], read(os.path.join(d, OUT[s])) if OUT[s] else None, d, d, {'p.c': text}, kind, cutof(s, runs[0]['E'][0]))
    for (what, xcc, d, e), ru in list(zip(target_dirs, runs))[1:]:
        for s in stages:
            compare(res, '%s seed=%s %s' % (what, seed, kind), s, runs[0][s][0], ru[s][0], runs[0][s][1], ru[s][1], a, d, {'p.c': text}, kind, cutof(s, runs[0]['E'][0]))
            if res.violations:
                return res
    res.count(kind)
    return res


def linkcase(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    g = Graph(r)
    units = [('u%d.%s' % (u.u, u.lang), g.source(u), u.common) for u in g.units]
    a = os.path.join(wd, 'a')
    dirs = [(None, _d + '/xcc', a, {})] + variants(r, wd)
    opts = ['-o', 'p.exe', '-Xlinker', '-Map=p.map']
    runs = []
    for what, xcc, d, e in dirs:
        os.makedirs(d, exist_ok=True)
        objs = []
        for fn, src, common in units:
            target.write(d, fn, src)
            o = fn[:-2] + '.o'
            x = one(xcc, d, ['-c'] + (['-fcommon'] if common else []) + ['-o', o, fn], e)
            objs.append((o, x, read(os.path.join(d, o))))
        runs.append((objs, one(xcc, d, opts + [o for o, _, _ in objs], e), read(os.path.join(d, 'p.exe')), read(os.path.join(d, 'p.map'))))
    files = {fn: src for fn, src, _ in units}
    for (what, xcc, d, e), ru in list(zip(dirs, runs))[1:]:
        w = '%s seed=%s link' % (what, seed)
        for (o, x, f), (_, y, h) in zip(runs[0][0], ru[0]):
            compare(res, w + ' ' + o, 'c', x, y, f, h, a, d, files, 'unit')
        compare(res, w, 'x', runs[0][1], ru[1], runs[0][2], ru[2], a, d, files, 'link')
        compare(res, w + ' map file', 'x', runs[0][1], ru[1], runs[0][3], ru[3], a, d, files, 'map')
        if res.violations:
            return res
    res.count('link')
    return res


def selfcase(fn, wd):
    """The tools' own sources."""
    res = core.CaseResult()
    r = random.Random(fn)
    inc = ['-I' + os.path.join(_d, 'src', p) for p in ('cc', 'cc/frontend', 'cc/backend', 'cc/arch/x64', 'util', 'as', 'as/arch/x64', 'ld', 'cpp')] + ['-I' + os.path.join(_d, 'src')]
    src = os.path.join(_d, fn)
    runs = []
    dirs = [(None, _d + '/xcc', os.path.join(wd, 'a'), {})] + variants(r, wd)
    for what, xcc, d, e in dirs:
        os.makedirs(d, exist_ok=True)
        target.write(d, 'p.c', open(src, 'rb').read())
        args = ['-I' + os.path.join(_d, os.path.dirname(fn))] + inc
        runs.append((one(xcc, d, ['-S', '-o', 'p.s'] + args + ['p.c'], e), read(d + '/p.s'), one(xcc, d, ['-c', '-o', 'p.o'] + args + ['p.c'], e), read(d + '/p.o')))
    for (what, xcc, d, e), ru in list(zip(dirs, runs))[1:]:
        compare(res, '%s %s' % (what, fn), 'S', runs[0][0], ru[0], runs[0][1], ru[1], dirs[0][2], d, {}, 'own')
        compare(res, '%s %s' % (what, fn), 'c', runs[0][2], ru[2], runs[0][3], ru[3], dirs[0][2], d, {}, 'own')
    res.count('own')
    return res


def entry(a, wd):
    return a[0](a[1], wd)


def check(ck):
    global _d, _g, _corpus
    _corpus = mutate.corpus()
    _d = core.build('x64')
    _g = core.build('gen2')
    own = []
    for root, _, fs in os.walk(os.path.join(_d, 'src')):
        if not re.search(r'wcc|_debug|riscv64|aarch64', root):
            own += [os.path.relpath(os.path.join(root, f), _d) for f in sorted(fs) if f.endswith('.c')]
    own.sort()
    r = ck.rng('own')
    if not ck.thorough():
        own = sorted(r.sample(own, min(16, len(own))))
    ck.run_cases(entry, [(selfcase, f) for f in own] +
                 [(case, '%s/%d/%d' % (ck.prop, ck.seed, i)) for i in range(ck.n(700, 12000))] +
                 [(linkcase, '%s/%d/l%d' % (ck.prop, ck.seed, i)) for i in range(ck.n(60, 800))])
