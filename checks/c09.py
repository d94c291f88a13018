"""C09: the preprocessor in lockstep with gcc -E (clang -E confirms a difference): token sequences, line markers, includes, rejections."""
import os
import random
from vlib import core, ppgen, target

RULE = ('one evaluation = one token of the output compared with the reference preprocessor, one line marker claim checked for a marker token, '
        'or one accept/reject decision; distinct = combinations of constructs in a source and kinds of include trees and errors')
TECHNIQUE = 'runtime monitoring: token streams and line claims of the running preprocessor against reference preprocessors and the known position of marker tokens'
MIN_EVALS = 20000
_cpp = _xcc = None
REF = ['-E', '-w', '-std=gnu11', '-undef']


def norm(t, wd):
    t = t.replace(wd + '/', '')
    return '"%s"' % os.path.normpath(t[1:-1]) if t.endswith('.h"') else t


def toks(out, wd):
    o = [(f, l, [norm(t, wd) for t in ts]) for f, l, ts in ppgen.out_lines(out.decode('latin-1'))]
    return o, [t for f, l, ts in o for t in ts]


def evalcond(p):
    def ev(c):
        src = '\n'.join(getattr(p, 'head', [])) + '\n'
        for n in p.macros:
            src += '\n#undef %s\n#define %s(x) x' % (n, n)
        src += '\n#if %s\nYES\n#else\nNO\n#endif\n' % c
        return b'YES' in core.run(['gcc', '-E', '-P', '-w', '-'], input=src.encode()).out
    return ev


def write_files(wd, files, dirs=('inc1', 'inc2', 'inc1/sub')):
    for d in dirs:
        os.makedirs(os.path.join(wd, d), exist_ok=True)
    for f, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(wd, f)), exist_ok=True)
        with open(os.path.join(wd, f), 'w') as fp:
            fp.write(t)


def compare(res, wd, files, opts, what, marks=None, stdin=None):
    """Runs both preprocessors and compares; returns False when the reference rejects the source."""
    src = ['t.c'] if stdin is None else ['-']
    g = core.run2(['gcc'] + REF + opts + src, cwd=wd, input=stdin)
    if g.rc != 0:
        res.count('rejected_by_reference')
        return False
    tool = [_cpp] if stdin is None or random.random() < 0 else [_cpp]
    x = core.run2(tool + opts + (src if stdin is None else []), cwd=wd, input=stdin)
    _, tg = toks(g.out, wd)
    ox, tx = toks(x.out, wd)
    res.evals += 1 + len(tg)
    res.events += len(ox)
    if x.rc != 0 or tx != tg:
        c = core.run2(['clang'] + REF + opts + src, cwd=wd, input=stdin)
        _, tc = toks(c.out, wd)
        f = dict(files, **{'gcc.txt': g.out, 'xcc.txt': x.out, 'xcc.err': x.err})
        if c.rc != 0 or tc != tg:
            res.inconclusive += 1
            return True
        if x.rc != 0 or x.timeout:
            res.bad('%s: rejected: %s %s' % (what, x.brief(), x.err.decode('latin-1').strip().split('\n')[0][:200]), f)
        else:
            i = next((i for i, (a, b) in enumerate(zip(tg, tx)) if a != b), min(len(tg), len(tx)))
            res.bad('%s: token %d: "%s", expected "%s"' % (what, i, ' '.join(tx[max(0, i - 3):i + 5]), ' '.join(tg[max(0, i - 3):i + 5])), f)
        return True
    if marks:
        at = {}
        for f, l, ts in ox:
            f = os.path.normpath(os.path.relpath(os.path.join(wd, f), wd))
            for t in ts:
                if t in marks:
                    at.setdefault(t, []).append((f, l))
        for m, where in sorted(at.items()):
            res.evals += 1
            bad = [w for w in where if w != marks[m]]
            if bad:
                res.bad('%s: token %s is claimed to be at %s:%d, it is at %s:%d' % ((what, m) + bad[0] + marks[m]), dict(files, **{'xcc.txt': x.out}))
                break
    return True


def gencase(seed, wd):
    res = core.CaseResult()
    for i in range(6):
        s = '%s.%d' % (seed, i)
        d = os.path.join(wd, str(i))
        os.mkdir(d)
        p = ppgen.PP(random.Random(s))
        files = p.program(evalcond(p))
        write_files(d, files)
        if compare(res, d, files, ['-Iinc1', '-Iinc2'], 'source seed %s' % s, p.marks):
            res.distinct.add(tuple(sorted(p.kinds)))
        if res.violations:
            break
    res.sample = {'source': files['t.c'][:300]}
    return res


def inccase(seed, wd):
    """Same-named headers in several directories: which one is found."""
    r = random.Random(seed)
    res = core.CaseResult()
    for k in range(4):
        top = os.path.join(wd, str(k))
        os.mkdir(top)
        dirs = ['.', 'd1', 'd2', 'd3', 'd1/n', 'd2/n']
        names = ['a.h', 'b.h', 'n/c.h']
        files = {}
        for d in dirs:
            for n in names:
                if r.random() < .55:
                    p = os.path.normpath(os.path.join(d, n))
                    body = 'at_%s\n' % p.replace('/', '_').replace('.', '_')
                    if r.random() < .3:
                        body = '#pragma once\n' + body
                    elif r.random() < .3:
                        g = 'G_' + p.replace('/', '_').replace('.', '_')
                        body = '#ifndef %s\n#define %s\n%s#endif\n' % (g, g, body)
                    if r.random() < .4:
                        o = r.choice([x for x in names if x != n])
                        body += '#ifndef DEEP%d\n#define DEEP%d\n' % (len(files), len(files))
                        body += r.choice(['#include "%s"\n', '#include <%s>\n']) % (o if r.random() < .8 else n)
                        body += '#endif\n'
                    files[p] = body + 'end_%d\n' % len(files)
        src = ''
        for i in range(r.randint(1, 6)):
            n = r.choice(names)
            k2 = r.randrange(5)
            if k2 == 0:
                src += '#include <%s>\n' % n
            elif k2 == 1:
                src += '#define H%d <%s>\n#include H%d\n' % (i, n, i)
            elif k2 == 2:
                src += '#define S%d "%s"\n# include S%d // x\n' % (i, n, i)
            elif k2 == 3 and r.random() < .5:
                src += '#include "d1/../d2/%s"\n' % n
            else:
                src += '#include "%s"\n' % n
            src += 'line __LINE__\n'
        opts = []
        inc = ['d1', 'd2', 'd3']
        r.shuffle(inc)
        inc = inc[:r.randint(0, 3)]
        if inc and r.random() < .4:
            # a chain of include_next over the directories that are searched
            have = [d for d in inc if r.random() < .7] or inc[:1]
            for i, d in enumerate(have):
                files[d + '/nx.h'] = 'nx_%s __LINE__\n%snx_end_%s __LINE__\n' % (d, '#include_next <nx.h>\n' if i + 1 < len(have) else '', d)
            src = '#include <nx.h>\n' + src
            nx = True
        else:
            nx = False
        files['t.c'] = src
        write_files(top, files, dirs)
        for d in inc:
            if nx:
                opts.append('-I' + d)
                continue
            opts += r.choice([['-I' + d], ['-I', d], ['-isystem', d], ['-idirafter', d]] if r.random() < .5 else [['-I' + d]])
        for i in range(r.randint(0, 3)):
            m = r.choice(['M1', 'M2', 'line'])
            opts += r.choice([['-D' + m], ['-D%s=7' % m], ['-D%s=(a b)' % m], ['-D%s=' % m], ['-U' + m]] if i == 0 else [['-D%sx' % m]])
        src2 = src + 'M1 M2 line\n#ifdef M1\nM1_defined\n#endif\n'
        write_files(top, {'t.c': src2}, ())
        if compare(res, top, dict(files, **{'t.c': src2}), opts, 'include tree seed %s.%d %s' % (seed, k, ' '.join(opts))):
            res.distinct.add(('inc', len(opts), tuple(sorted(set(o[:2] for o in opts)))))
        if res.violations:
            break
    return res


BAD = ['#else', '#endif', '#elif 1', '#if 1', '#if 0', '#if 1\n#else\n#else\n#endif', '#if 1\n#else\n#elif 1\n#endif', '#ifdef', '#ifndef', '#if', '#if 1 +\n#endif', '#if (1\n#endif', '#if 1)\n#endif', '#if 1 2\n#endif',
       '#define', '#define 1', '#define F(', '#define F(a', '#define F(a,', '#define F(1) x', '#undef', '#include', '#include x', '#include "missing_.h"', '#include <missing_.h>', '#include "x', '#include <x',
       '#error stop', '#error', '#unknown', '#define F(a) a\nF(1, 2)', '#define F(a, b) a\nF(1)', '#define F() a\nF(1)', '#define F(a) a\nF(1', '#define F(a, b) a\nF(', '/* not closed', '#define X /* not closed', '#if 1 /* x\n',
       '#if 0\n#if 1\n#endif', '#ifdef A\n/* #endif', '#if 1 ? 2\n#endif', '#if == 1\n#endif', '#if defined\n#endif', '#if defined(\n#endif', '#if "a"\n#endif', '#if 1 *\n#endif', '#if !\n#endif', '#if * 1\n#endif', '#if & 1\n#endif']


def badcase(seed, wd):
    """A source with one error: rejected; the same source with the error in a skipped group: accepted."""
    r = random.Random(seed)
    res = core.CaseResult()
    n, bad = seed_bad(seed, r)
    pre = ''.join(r.choice(['int a;\n', '#define Q 1\n', '\n', '/* c */\n', 'x Q y\n']) for _ in range(r.randint(0, 8)))
    post = ''.join(r.choice(['int b;\n', '\n', 'Q\n', '// c\n']) for _ in range(r.randint(0, 5)))
    wrap = r.choice(['%s', '#if 1\n%s#endif\n', '#ifdef NOPE\n#else\n%s#endif\n', '#if 0\n#elif 2\n%s#endif\n'])
    if bad.startswith('#') and ('if' in bad.split('\n')[0] or bad.startswith('#el') or bad.startswith('#endif')):
        wrap = '%s'
    src = wrap % (pre + bad + '\n' + post)
    write_files(wd, {'t.c': src}, ())
    res.distinct.add(('bad', bad))
    for cmd, name in (([_cpp, 't.c'], 'cpp'), ([_xcc, '-c', '-o', 't.o', 't.c'], 'xcc')):
        x = core.run2(cmd, cwd=wd, env={'TMPDIR': wd})
        res.evals += 1
        if x.rc == 0 or x.rc < 0 or x.timeout or not (x.err.strip() or x.out.strip()):
            res.bad('error not reported by %s (%s): %r' % (name, x.brief(), bad), {'t.c': src, 'out.txt': x.out, 'err.txt': x.err})
        if os.path.exists(os.path.join(wd, 't.o')):
            res.bad('object left after a preprocessing error: %r' % bad, {'t.c': src})
    # skipped: only constructs that keep the nesting
    if not any(bad.startswith(p) for p in ('#else', '#elif', '#endif', '/*')) and '/*' not in bad and (bad.count('#if') == bad.count('#endif')) and '#else\n#el' not in bad:
        src = pre.replace('#define Q 1', '') + r.choice(['#if 0\n%s#endif\n', '#if 1\n#else\n%s#endif\n', '#ifdef NOPE\n%s#else\nok\n#endif\n', '#if 1\nok\n#elif %%s\n%s#endif\n', '#if 0\n#if 1\n%s#else\n#endif\n#endif\n',
                                                         '#if 1\n#elif 1 /\n%s#elif\n#endif\n']).replace('%%s', '1') % (bad + '\n') + post
        write_files(wd, {'t.c': src}, ())
        compare(res, wd, {'t.c': src}, [], 'skipped %r' % bad)
    return res


def seed_bad(seed, r):
    i = int(seed.rsplit('/', 1)[1])
    return i, BAD[i % len(BAD)]


def check(ck):
    global _cpp, _xcc
    d = core.build('x64')
    _cpp, _xcc = os.path.join(d, 'cpp'), os.path.join(d, 'xcc')
    ck.run_cases(badcase, ['%s/%d/bad/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(len(BAD) * 3, len(BAD) * 40))])
    ck.run_cases(inccase, ['%s/%d/inc/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(250, 4000))])
    ck.run_cases(gencase, ['%s/%d/g/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(400, 8000))])
