"""C11: links random graphs of objects and archives; the linked program reports what every reference reached."""
import os
import random
import re
from vlib import core, target
from vlib.linkgraph import Graph

RULE = ('one evaluation = one reference, alignment, initial content, zero fill, overwrite check, constructor or destructor event reported by a linked program, '
        'or one rejected link with its diagnostics, compared with the model of symbol resolution; distinct = kinds of definitions, files and outcomes combined')
TECHNIQUE = 'runtime monitoring: linked programs report the identity and content of everything they refer to; compared with a model of symbol resolution'
MIN_EVALS = 3000
_tg = None


def case(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    g = Graph(r)
    files, args = {}, []
    for u in g.units:
        fn = 'u%d.%s' % (u.u, u.lang)
        src = g.source(u)
        files[fn] = src
        target.write(wd, fn, src)
        c = core.run2([_tg.xcc, '-c'] + (['-fcommon'] if u.common else []) + ['-o', oname(u), fn], cwd=wd, env={'TMPDIR': wd})
        if c.rc != 0 or c.timeout:
            res.bad('links (seed %s): unit not built: %s %s' % (seed, c.brief(), c.err.decode('latin-1')[:200]), {fn: src})
            return res
    kinds = set()
    style = r.randrange(3)
    for k, f in enumerate(g.files):
        if isinstance(f, list):
            a = 'lib%s%d.a' % ('x' * (40 if k % 3 == 0 else 0), k)
            y = core.run2(['ar', r.choice(['rcs', 'rcsD', 'rcsU']), a] + [oname(u) for u in f], cwd=wd)
            if y.rc:
                raise core.HarnessError('ar: ' + y.err.decode())
            args += [a] if style == 0 else ['-L.', '-l' + a[3:-2]] if style == 1 else ['-L', '.', '-l' + a[3:-2]]
            if style == 2 and args.count('-L') > 1:
                args = args[:-3] + args[-1:]
        else:
            args.append(oname(f))
    cmd = [_tg.xcc, '-o', 'prog'] + args
    files['cmd.txt'] = ' '.join(cmd) + '\n' + '\n'.join('%s: %s' % (a, [u.u for u in f] if isinstance(f, list) else f.u) for a, f in enumerate(g.files)) + '\n'
    c = core.run2(cmd, cwd=wd, env={'TMPDIR': wd})
    files['link.txt'] = c.err
    res.count('links')
    if c.timeout or c.rc < 0 or c.rc >= 128:
        res.bad('links (seed %s): the linker ends with %s' % (seed, c.brief()), files)
        return res
    err = c.err.decode('latin-1')
    bad = sorted(g.undef) + g.dups
    if bad:
        res.evals += 1
        res.distinct.add('rejected' + (' undefined' if g.undef else '') + (' duplicate' if g.dups else ''))
        if c.rc == 0:
            res.bad('links (seed %s): accepted, but undefined %s, duplicate %s' % (seed, sorted(g.undef), g.dups), files)
        elif os.path.exists(os.path.join(wd, 'prog')):
            res.bad('links (seed %s): a failed link leaves an output file' % seed, files)
        else:
            for n in (g.dups or sorted(g.undef)):
                if not re.search(r'\b%s\b' % n, err):
                    res.bad('links (seed %s): the diagnostic does not name %s: %s' % (seed, n, err[:200]), files)
                    break
            for n in re.findall(r'\b([fvw]\d+)\b', err):
                if n not in bad:
                    res.bad('links (seed %s): the diagnostic names %s, which is all right' % (seed, n), files)
                    break
        return res
    if c.rc != 0:
        res.bad('links (seed %s): rejected: %s' % (seed, err[:300]), files)
        return res
    x = core.run2(['./prog'], cwd=wd)
    files['got.txt'] = x.out
    lines = x.out.decode('latin-1').split('\n')[:-1]
    exp = g.expected()
    files['expected.txt'] = '\n'.join(exp) + '\n'
    res.events += len(lines)
    ct = [int(l.split()[1]) for l in lines if l.startswith('ctor ')]
    dt = [int(l.split()[1]) for l in lines if l.startswith('dtor ')]
    body = [l for l in lines if l[:5] not in ('ctor ', 'dtor ')]
    if x.rc != 0 or x.timeout:
        res.bad('links (seed %s): the program ends with %s' % (seed, x.brief()), files)
    want = sorted(u.u for u in g.included if not u.main)
    res.evals += len(exp) + 2
    if sorted(ct) != want:
        res.bad('links (seed %s): units %s in the program, expected %s' % (seed, sorted(ct), want), files)
    elif [g.where[u][0] for u in ct] != sorted(g.where[u][0] for u in ct):
        res.bad('links (seed %s): constructors run in the order %s, not in link order' % (seed, ct), files)
    elif body != exp:
        i = next((i for i, (a, b) in enumerate(zip(body, exp)) if a != b), min(len(body), len(exp)))
        res.bad('links (seed %s): line %d is %r, expected %r' % (seed, i, body[i] if i < len(body) else None, exp[i] if i < len(exp) else None), files)
    elif dt != [u for u in reversed(ct) if g.units[u].lang == 'c']:
        res.bad('links (seed %s): destructors run in the order %s after constructors %s' % (seed, dt, ct), files)
    for n, (u, d) in g.defined.items():
        if n[0] in 'fv':
            kinds.add('%s %s %s%s' % (n[0], d[0], u.lang, ' archive' if g.where[u.u][1] else ''))
    for u in g.included:
        for n in u.refs:
            d = g.defined[n]
            res.distinct.add('%s reaches %s %s%s, %s' % (u.lang, n[0], d[1][0], ' in archive' if g.where[d[0].u][1] else '', 'same file' if g.where[d[0].u][0] == g.where[u.u][0] else 'before' if g.where[d[0].u][0] < g.where[u.u][0] else 'after'))
        for n, d in u.defs.items():
            o = g.defined.get(n)
            if o and o[0] is not u and d[0] != 'static':
                res.distinct.add('%s %s yields to %s' % (n[0], d[0], o[1][0]))
    res.sample = {'files': files['cmd.txt'], 'lines': lines[:12]}
    return res


def oname(u):
    return ('a_very_long_object_file_name_%d.o' if u.u % 3 == 0 else 'o%d.o') % u.u


def bigcase(seed, wd):
    """Archives and images of some megabytes: members and symbols far from the beginning."""
    r = random.Random(seed)
    res = core.CaseResult()
    n = r.randrange(2, 7)
    files = {}
    want = []
    for i in range(n):
        size = r.choice([r.randrange(1, 3000), r.randrange(3000, 200000), r.randrange(200000, 4000000)])
        k = r.randrange(size)
        files['u%d.c' % i] = 'char b%d[%d] = { [%d] = %d };\nstatic long z%d[%d];\nlong *p%d(void) { return &z%d[%d]; }\nint f%d(int i) { return b%d[i] + (z%d[3] != 0); }\n' % (
            i, size, k, i + 1, i, r.randrange(10, 100000), i, i, r.randrange(4, 10), i, i, i)
        want.append((i, k))
    used = [w for w in want if r.random() < .8] or want
    files['m.c'] = '#include <stdio.h>\n' + ''.join('int f%d(int); long *p%d(void);\n' % (i, i) for i, _ in used) + 'int main(void) {\n' + ''.join(
        '  *p%d() = %d;\n' % (i, i + 50) for i, _ in used) + ''.join('  printf("%%d %%ld\\n", f%d(%d), *p%d());\n' % (i, k, i) for i, k in used) + '  return 0;\n}\n'
    for f, t in files.items():
        target.write(wd, f, t)
    xcc = os.path.join(core.build('x64'), 'xcc')
    objs = ['u%d' % i for i in range(n)]
    r.shuffle(objs)
    for o in objs:
        x = core.run2([xcc, '-c', '-o', o + '.o', o + '.c'], cwd=wd, env={'TMPDIR': wd}, timeout=60)
        if x.rc != 0:
            res.bad('seed %s: %s.c not compiled: %s' % (seed, o, x.brief()), files)
            return res
    arch = r.random() < .8
    libs = ['libu.a'] if arch else [o + '.o' for o in objs]
    if arch:
        x = core.run2(['ar', 'rcs', 'libu.a'] + [o + '.o' for o in objs], cwd=wd)
        if x.rc != 0:
            raise core.HarnessError('ar: ' + x.brief())
    x = core.run2([xcc, '-o', 'a.out', 'm.c'] + libs, cwd=wd, env={'TMPDIR': wd}, timeout=60)
    if x.rc != 0:
        res.bad('seed %s: big %s not linked: %s %s' % (seed, libs, x.brief(), target.first_error(x.err)), files)
        return res
    x = core.run2([os.path.join(wd, 'a.out')], cwd=wd)
    exp = ''.join('%d %d\n' % (i + 1, i + 50) for i, _ in used)
    res.evals += len(used) * 2
    res.events += len(used) * 2
    if x.rc != 0 or x.out.decode('latin-1') != exp:
        res.bad('seed %s: big %s: expected %r, got %s %r' % (seed, libs, exp, x.brief(), x.out[:200]), files)
    else:
        res.distinct = {('big', arch, n)}
    return res


def check(ck):
    global _tg
    _tg = target.X64()
    ck.run_cases(case, ['%s/%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(1500, 20000))])
    ck.run_cases(bigcase, ['%s/b%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(40, 600))])
