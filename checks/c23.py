"""C23: wasm objects and archives linked into modules; run-time library histories under WASI."""
import os
import random
import re
import shutil
from vlib import core, target, wasm
from vlib.linkgraph import Graph
from vlib.rtprog import RT

RULE = ('one evaluation = one reference, initial content, zero fill, overwrite check, constructor or destructor event or exported name of a linked module, one rejected link with its '
        'diagnostics (against the model of symbol resolution), or one line of output, file or exit status of a run-time history (against the host library); '
        'distinct = kinds of definitions, references and operations')
TECHNIQUE = ('runtime monitoring: linked modules report the identity and content of everything they refer to, their export and import lists are read back from the validated module; '
             'run-time histories run in lockstep with the host library, with files, exit status and streams compared')
MIN_EVALS = 3000
_tg = None


def oname(u):
    return ('a_very_long_object_file_name_%d.o' if u.u % 3 == 0 else 'o%d.o') % u.u


def graphcase(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    g = Graph(r, wasm=True)
    files, args = {}, []
    what = 'module (seed %s): ' % seed
    for u in g.units:
        fn = 'u%d.c' % u.u
        files[fn] = g.source(u)
        target.write(wd, fn, files[fn])
        c = core.run2([_tg.xcc, '-c', '-o', oname(u), fn], cwd=wd, env={'TMPDIR': wd})
        if c.rc != 0 or c.timeout:
            res.bad(what + 'unit not built: %s %s' % (c.brief(), c.err.decode('latin-1')[:200]), files)
            return res
    style = r.randrange(3)
    for k, f in enumerate(g.files):
        if isinstance(f, list):
            a = 'wlib%s%d.a' % ('x' * (40 if k % 3 == 0 else 0), k)
            y = core.run2(['llvm-ar-18', r.choice(['rcs', 'rcsD', 'rcsU']), a] + [oname(u) for u in f], cwd=wd)
            if y.rc:
                raise core.HarnessError('ar: ' + y.err.decode())
            args += [a] if style == 0 else ['-L.', '-l' + a[4:-2]] if style == 1 else ['-L', '.', '-l' + a[4:-2]]
        else:
            args.append(oname(f))
    exports = sorted(n for n, (u, d) in g.defined.items() if n[0] == 'f' and r.random() < .3)
    if exports:                     # exported names are looked for from the start
        g.link(exports)
        args = ['-e' + ','.join(exports)] + args if r.random() < .5 else ['-e' + n for n in exports] + args
    cmd = [_tg.xcc, '-o', 'prog.wasm'] + args
    files['cmd.txt'] = ' '.join(cmd) + '\n' + '\n'.join('%s: %s' % (a, [u.u for u in f] if isinstance(f, list) else f.u) for a, f in enumerate(g.files)) + '\n'
    c = core.run2(cmd, cwd=wd, env={'TMPDIR': wd})
    files['link.txt'] = c.err
    res.count('links')
    if c.timeout or c.rc < 0 or c.rc >= 128:
        res.bad(what + 'the linker ends with %s' % c.brief(), files)
        return res
    err = c.err.decode('latin-1')
    bad = sorted(g.undef) + g.dups
    if bad:
        res.evals += 1
        res.distinct.add('rejected' + (' undefined' if g.undef else '') + (' duplicate' if g.dups else ''))
        if c.rc == 0:
            res.bad(what + 'accepted, but undefined %s, duplicate %s' % (sorted(g.undef), g.dups), files)
        elif os.path.exists(os.path.join(wd, 'prog.wasm')):
            res.bad(what + 'a failed link leaves an output file', files)
        else:
            for n in bad:
                if not re.search(r'\b%s\b' % n, err):
                    res.bad(what + 'the diagnostic does not name %s: %s' % (n, err[:200]), files)
                    break
            for n in re.findall(r'\b([fvw]\d+)\b', err):
                if n not in bad:
                    res.bad(what + 'the diagnostic names %s, which is all right' % n, files)
                    break
        return res
    if c.rc != 0:
        res.bad(what + 'rejected: %s' % err[:300], files)
        return res
    q = {'wasm': os.path.join(wd, 'prog.wasm'), 'args': ['prog'], 'out': os.path.join(wd, '.o'), 'err': os.path.join(wd, '.e'), 'call': [[n] for n in exports]}
    a = wasm.ask(q, 30) or {'error': 'time-out'}
    if a.get('error'):
        res.bad(what + 'not a valid module: %s' % a['error'], files)
        return res
    res.evals += 2 + len(exports)
    names = sorted(n for n, k in a['exports'])
    if names != sorted(['_start', 'memory'] + exports):
        res.bad(what + 'exports %s, expected %s' % (names, sorted(['_start', 'memory'] + exports)), files)
    if [i for i in a['imports'] if i[0] != 'wasi_snapshot_preview1']:
        res.bad(what + 'imports %s' % a['imports'], files)
    if len(set(map(str, a['imports']))) != len(a['imports']):
        res.bad(what + 'repeated imports %s' % a['imports'], files)
    vals = [g.defined[n][1][2] for n in exports]
    if a['results'] != vals:
        res.bad(what + 'exported functions %s give %s, expected %s' % (exports, a['results'], vals), files)
    x = _tg.run(wd, 'prog.wasm')
    files['got.txt'] = x.out
    lines = x.out.decode('latin-1').split('\n')[:-1]
    exp = g.expected()
    files['expected.txt'] = '\n'.join(exp) + '\n'
    res.events += len(lines)
    ct = [int(l.split()[1]) for l in lines if l.startswith('ctor ')]
    dt = [int(l.split()[1]) for l in lines if l.startswith('dtor ')]
    body = [l for l in lines if l[:5] not in ('ctor ', 'dtor ')]
    if x.rc != 0 or x.timeout:
        res.bad(what + 'ends with %s %s' % (x.brief(), x.err[-200:].decode('latin-1')), files)
    want = sorted(u.u for u in g.included if not u.main)
    res.evals += len(exp) + 2
    if sorted(ct) != want:
        res.bad(what + 'units %s in the program, expected %s' % (sorted(ct), want), files)
    elif [g.where[u][0] for u in ct] != sorted(g.where[u][0] for u in ct):
        res.bad(what + 'constructors run in the order %s, not in link order' % ct, files)
    elif body != exp:
        i = next((i for i, (a, b) in enumerate(zip(body, exp)) if a != b), min(len(body), len(exp)))
        res.bad(what + 'line %d is %r, expected %r' % (i, body[i] if i < len(body) else None, exp[i] if i < len(exp) else None), files)
    elif dt != list(reversed(ct)):
        res.bad(what + 'destructors run in the order %s after constructors %s' % (dt, ct), files)
    for u in g.included:
        for n in u.refs:
            d = g.defined[n]
            res.distinct.add('reaches %s %s%s, %s' % (n[0], d[1][0], ' in archive' if g.where[d[0].u][1] else '', 'same file' if g.where[d[0].u][0] == g.where[u.u][0] else 'before' if g.where[d[0].u][0] < g.where[u.u][0] else 'after'))
        for n, d in u.defs.items():
            o = g.defined.get(n)
            if o and o[0] is not u and d[0] != 'static':
                res.distinct.add('%s %s yields to %s' % (n[0], d[0], o[1][0]))
    res.sample = {'files': files['cmd.txt'], 'lines': lines[:12]}
    return res


def tree(d):
    o = {}
    for root, ds, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(root, f), 'rb') as h:
                o[os.path.relpath(os.path.join(root, f), d)] = h.read()
        for f in ds:
            o[os.path.relpath(os.path.join(root, f), d) + '/'] = None
    return o


def rtcase(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    p = RT(r)
    src = p.program()
    args = [''.join(r.choice("ab *'\"\\$\u00e9") for _ in range(r.choice([0, 1, 5, 40, 300]))) for _ in range(r.randint(0, 6))]
    inp = ''.join(r.choice('abc \n') for _ in range(r.choice([0, 3, 80, 3000]))).encode()
    files = {'p.c': src, 'args.txt': '\n'.join(args), 'stdin.txt': inp}
    what = 'history (seed %s): ' % seed
    target.write(wd, 'p.c', src)
    c = core.run2(['gcc', '-O1', '-w', '-fno-builtin', '-D_GNU_SOURCE', '-o', 'ref', 'p.c', '-lm'], cwd=wd)
    if c.rc:
        raise core.HarnessError('reference not built: ' + c.err.decode('latin-1')[:500])
    h, w = os.path.join(wd, 'h'), os.path.join(wd, 'w')
    os.mkdir(h)
    os.mkdir(w)

    def fresh():
        shutil.rmtree(w)
        os.mkdir(w)
    a = core.run2(['../ref', *args], cwd=h, input=inp, timeout=20)
    if a.timeout or a.rc < 0:
        raise core.HarnessError('reference ends with ' + a.brief())
    c = _tg.compile(wd, ['p.c'])
    if c.rc:
        res.bad(what + 'not built: %s %s' % (c.brief(), c.err.decode('latin-1')[:300]), files)
        return res
    x = _tg.run(wd, 'a.wasm', args=args, input=inp, preopens={'.': w}, fresh=fresh)
    files['expected.txt'], files['got.txt'] = a.out, x.out
    la, lx = a.out.split(b'\n'), x.out.split(b'\n')
    res.evals += len(la) + 2
    res.events += len(lx)
    res.distinct |= p.kinds
    for l in la:
        res.distinct.add(l.split(b' ')[0].decode('latin-1')[:12] if re.match(rb'[a-z]+ ', l) else 'value')
    if la != lx:
        i = next((i for i, (m, n) in enumerate(zip(lx, la)) if m != n), min(len(lx), len(la)))
        res.bad(what + 'line %d is %r, expected %r%s' % (i, lx[i][:150] if i < len(lx) else None, la[i][:150] if i < len(la) else None,
                                                         '' if x.rc == a.rc else ', ends with %s %s' % (x.brief(), x.err[-200:].decode('latin-1'))), files)
    elif x.rc != a.rc or x.timeout:
        res.bad(what + 'ends with %s, expected %d %s' % (x.brief(), a.rc, x.err[-200:].decode('latin-1')), files)
    elif x.err != a.err:
        res.bad(what + 'standard error is %r, expected %r' % (x.err[:100], a.err[:100]), files)
    else:
        th, tw = tree(h), tree(w)
        res.evals += len(th)
        for n in sorted(set(th) | set(tw)):
            if n not in th or n not in tw or th[n] != tw[n]:
                res.bad(what + 'file %s: %r, expected %r' % (n, tw.get(n, 'missing'), th.get(n, 'missing')), files)
                break
    res.sample = {'kinds': sorted(p.kinds), 'lines': [l.decode('latin-1')[:80] for l in la[:8]]}
    return res


def check(ck):
    global _tg
    _tg = wasm.Wasm()
    ck.run_cases(graphcase, ['%s/g%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(300, 6000))])
    ck.run_cases(rtcase, ['%s/r%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(700, 15000))])
