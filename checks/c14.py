"""C14: what the xcc driver does with its options, inputs and failing stages."""
import os
import random
import re
import shutil
import subprocess
import time
from vlib import core, elf, target

RULE = ('one evaluation = one run of the xcc driver (options, inputs and injected faults drawn at random) whose exit status, set of created, changed and deleted '
        'files, contents of outputs (against the single stages run by hand and the output of the linked program), log of stage starts and ends, and files left '
        'anywhere are compared with what the options say; distinct = output kinds x input kinds x options x faults x outcomes')
TECHNIQUE = 'runtime monitoring: driver with logging, fault-injecting stand-ins for its stages; offline checker of stage log, file system changes and exit status'
MIN_EVALS = 800
_d = _wrap = _so = None

PREDEF = ['__XCC', '__LP64__', '__x86_64__', '__linux__', '__STDC__', '__STDC_VERSION__=201112L', '__SIZEOF_POINTER__=8', '__SIZEOF_INT__=4', '__SIZEOF_LONG__=8',
          '__SIZEOF_LONG_LONG__=8', '__SIZEOF_SIZE_T__=8']
CPPFAIL = ['#error broken\n', '#include "nowhere.h"\n', '#if 1\nint x;\n', '#if (\n#endif\n', '#include <no/such/file.h>\n', '#define F(x\n', '#else\n']
CC1FAIL = ['int broken(void) { return undeclared; }\n', 'int broken(void) { return 1 }\n', 'int x; char *x;\n', 'struct S s;\nint broken(void) { return s.a; }\n', '}\n', 'int broken(void) { 1 = 2; return 0; }\n', '@\n']
ASFAIL = ['int broken(void) { __asm("garbage %rax"); return 0; }\n', 'int broken(void) { __asm("mov %nosuch, %eax"); return 0; }\n']
SFAIL = ['\tgarbage %rax\n', '\tmov %nosuch, %eax\n', '\tmov\n', ' .nosuchdirective 1\n\t???\n']


class Input:
    def __init__(self, name, kind, text, bad=None, part=None, val=0):
        self.name, self.kind, self.text, self.bad, self.part, self.val = name, kind, text, bad, part, val
        self.stage = {'cpp': 0, 'cc1': 1, 'as': 2}.get(bad, 9)


def csource(r, part, val, extra='', head='', big=False):
    fill = ''
    for i in range(r.choice([0, 0, 1, 3, 10]) if not big else r.choice([300, 1200])):
        fill += 'static int fill%d_%s(int a, int b) { for (int i = 0; i < b; ++i) a = a * %d + (b ^ i); return a; }\nint (*pf%d_%s)(int, int) = fill%d_%s;\n' % (i, part, i + 3, i, part, i, part)
    return head, fill, 'int %s(void) { return %s; }\n' % (part, val), extra


def mkc(r, part, val, bad=None, head='', big=False):
    h, f, body, _ = csource(r, part, val, head=head, big=big)
    x = r.choice({'cpp': CPPFAIL, 'cc1': CC1FAIL, 'as': ASFAIL}[bad]) if bad else ''
    if x in ('#if 1\nint x;\n', '#else\n'):
        return h + f + body + x
    return h + (x + f + body if r.random() < .4 else f + body + x if r.random() < .5 else f + x + body)


def mks(part, val, bad=''):
    return '\t.text\n%s\t.globl %s\n%s:\n\tmov $%d, %%eax\n\tret\n' % (bad, part, part, val)


def names(r, n, ext):
    return r.choice(['%s.%s', '%s.x.%s', 'sub/%s.%s', '%s-y.%s', './%s.%s', 'sub/d.d/%s.%s']) % (n, ext)


class Job:
    """A random command line, the files it needs, and what must come of it."""

    def __init__(self, r, wd):
        self.r = r
        self.inputs, self.files, self.args = [], {}, []
        self.stdin = b''
        self.mode = r.choice('ESccxxxx')
        self.fault = None
        n = r.choice([1, 1, 2, 2, 3, 4]) if self.mode != 'x' else r.choice([1, 2, 3, 4, 6])
        self.defs, self.cppo, self.cc1o, self.ldo = [], [], [], []
        self.libs = []
        self.sub = r.random() < .2
        self.odd = r.random() < .35         # one defect or other
        badat = r.randrange(n) if self.odd else -1
        head = ''
        self.tags = set()
        items = []
        # ---- options for the preprocessor
        for i in range(r.choice([0, 0, 1, 2])):
            v = r.randrange(1, 1000)
            self.defs.append(('M%d' % i, str(v)))
        if r.random() < .3:
            self.defs.append(('FLAG', None))
        if r.random() < .1:
            self.defs.append(('Q', '(1+2)*3'))
        hdirs = []
        if r.random() < .4:
            for d in r.sample(['ia', 'ib', 'ic', 'id'], r.choice([1, 2, 3])):
                hdirs.append((r.choice(['-I', '-I', '-isystem', '-idirafter']), d))
            for o, d in hdirs:
                self.files[d + '/hh.h'] = '#define HH %d\n' % (ord(d[1]))
                if r.random() < .2:
                    self.files[d + '/string.h'] = '#define MYSTDDEF %d\n' % ord(d[1])
        self.hdirs = hdirs
        order = {'-I': 0, '-isystem': 1, '-idirafter': 2}
        self.search = [d for k in range(3) for o, d in hdirs if order[o] == k]
        self.nostdinc = r.random() < .04
        if hdirs:
            head += '#include %s\n' % r.choice(['"hh.h"', '<hh.h>'])
        hh = ord(self.search[0][1]) if hdirs else 0
        withdef = [d for d in self.search if d + '/string.h' in self.files]
        if withdef or r.random() < .2:
            head += '#include <string.h>\n'
            usedef = True
        else:
            usedef = False
        mystddef = ord(withdef[0][1]) if withdef else 0
        if r.random() < .3:
            head += '// a comment\n/* another */\n'
        # ---- inputs
        vals = {}
        nomain = r.random() < .04
        exprs = ['%d' % r.randrange(1, 10000)]
        for k, v in self.defs:
            exprs.append(k if v is not None else '%s+0' % k)
        if hdirs:
            exprs.append('HH*7')
        if mystddef:
            exprs.append('MYSTDDEF')
        for m in PREDEF:
            exprs.append('%s+0' % m.split('=')[0])
        env = {k: v if v is not None else '1' for k, v in self.defs}
        env.update({'HH': str(hh), 'MYSTDDEF': str(mystddef)})
        for m in PREDEF:
            env[m.split('=')[0]] = m.split('=')[1].rstrip('L') if '=' in m else '1'

        def ev(e):
            return eval(re.sub(r'[A-Za-z_]\w*', lambda m: '(' + env.get(m.group(), m.group()) + ')' if m.group() in env else m.group(), e)) & 0x7fffffff

        used_stdin = False
        for i in range(n):
            part = 'part%d' % i
            k = r.choice(['c', 'c', 'c', 's', 'o', 'a', 'l']) if self.mode == 'x' else r.choice(['c', 'c', 'c', 's', 'o'])
            if i == 0 and self.mode != 'x' and r.random() < .7:
                k = 'c'
            bad = None
            if i == badat:
                bad = r.choice({'c': ['cpp', 'cc1', 'as', 'missing', 'dir', 'unknown'], 's': ['as', 'missing', 'dir'], 'o': ['trunc', 'missing', 'text'], 'a': ['text', 'missing'], 'l': ['missing']}[k])
            e = r.choice(exprs)
            v = ev(e)
            big = r.random() < .06
            if k == 'c':
                nm = names(r, 'u%d' % i, r.choice(['c', 'c', 'c', 'C']))
                via_x = False
                if not used_stdin and bad in (None, 'cpp', 'cc1', 'as') and r.random() < .12:
                    nm, used_stdin = '-', True
                elif r.random() < .08 and bad is None:
                    nm = 'u%d.%s' % (i, r.choice(['txt', 'src', 'h', 'inc']))
                    via_x = True
                text = mkc(r, part, e, bad if bad in ('cpp', 'cc1', 'as') else None, head, big)
                if bad == 'unknown':
                    nm = 'u%d.%s' % (i, r.choice(['txt', 'cc', 'x', 'c.bak']))
                if nm == '-':
                    self.stdin = text.encode()
                x = Input(nm, 'c', text, bad, part, v)
                x.via_x = via_x or nm == '-'
            elif k == 's':
                nm = names(r, 'u%d' % i, r.choice(['s', 's', 'S']))
                x = Input(nm, 's', mks(part, v & 0xffff, r.choice(SFAIL) if bad == 'as' else ''), bad, part, v & 0xffff)
                x.via_x = False
            else:
                x = Input('lib/u%d.%s' % (i, k if k != 'l' else 'a') if k != 'l' else 'lib/libu%d.a' % i, k, mks(part, v & 0xffff), bad, part, v & 0xffff)
                x.via_x = False
            items.append(x)
        if self.mode == 'x':
            at = r.randrange(len(items) + 1)
            parts = [i.part for i in items if i.kind != 'none']
            body = '#include <stdio.h>\n' + ''.join('int %s(void);\n' % p for p in parts)
            extra = r.choice(['', '', '', 'undef', 'dup']) if self.odd and r.random() < .3 else ''
            if extra == 'undef':
                body += 'int nowhere_defined(void);\n'
            if extra == 'dup' and parts:
                body += 'int %s(void) { return 0; }\n' % parts[0]
            self.linkbad = extra if extra == 'undef' or (extra == 'dup' and parts and items[0].kind in 'cso') else ''
            if extra == 'dup' and not self.linkbad:
                body = '#include <stdio.h>\n' + ''.join('int %s(void);\n' % p for p in parts)
            self.status = r.choice([0, 0, 3, 77])
            body += 'int main(int argc, char **argv) {\n' + ''.join('  printf("%s=%%d\\n", %s());\n' % (p, p) for p in parts)
            if self.linkbad == 'undef':
                body += '  nowhere_defined();\n'
            body += '  return %d;\n}\n' % self.status
            m = Input('main.c', 'c', body, None, None, 0)
            m.via_x = False
            if nomain:
                m.text = 'int notmain;\n'
                self.linkbad = 'nomain'
            items.insert(at if all(x.kind not in 'al' for x in items[:at]) else 0, m)
        else:
            self.linkbad = ''
        self.items = items
        # ---- command line
        first = []
        for k, v in self.defs:
            t = k if v is None else k + '=' + v
            first.append(r.choice([['-D' + t], ['-D', t]]))
        for o, d in hdirs:
            first.append(([o + d] if o == '-I' and r.random() < .5 else [o, d]))
        # search order among the same kind is the order given
        groups = {}
        if self.nostdinc:
            first.append(['-nostdinc'])
        if r.random() < .3:
            o = r.choice(['-O1', '-O2', '-O0', '-fno-common', '-fcommon', '-Wall', '-Wno-foo', '-ffoo', '-g', '-g3', '-std=c11', '-ansi', '-pedantic', '-no-pie'])
            first.append([o])
            if o[:2] in ('-O', '-f', '-W'):
                self.cc1o.append(o)
        self.comments = r.random() < .1
        if self.comments:
            first.append(['-C'])
        self.unknown = r.random() < .05
        if self.unknown:
            first.append([r.choice(['--nonsense', '-Zfoo', '-qqq'])])
        if any(x.via_x for x in items):
            first.append(['-xc'] if r.random() < .3 else ['-x', 'c'])
        one = len([x for x in items if x.kind in ('c' if self.mode in 'ES' else 'cs')]) == 1
        self.out = None
        if self.mode == 'x':
            self.out = r.choice([None, 'prog', 'out/prog.exe', 'a.b'])
            self.map = r.random() < .1
            if self.map:
                first.append(r.choice([['-Xlinker', '-Map=prog.map'], ['-Wl,-Map=prog.map']]))
        elif one and r.random() < .5:
            self.out = {'E': 'res.i', 'S': 'res.s', 'c': 'res.o'}[self.mode]
            self.out = r.choice([self.out, self.out, 'out/' + self.out, 'noext'])
            if self.mode in 'ES' and r.random() < .2:
                self.out = '-'
        self.baddir = self.out not in (None, '-') and r.random() < .04
        if self.baddir:
            self.out = r.choice(['nodir/x', 'out'])
        if self.out:
            first.append(r.choice([['-o', self.out], ['-o' + self.out], ['-o', self.out]]))
        if self.mode != 'x':
            first.append(['-' + self.mode])
        keep = [a for a in first if a[0][:2] == '-I' or a[0] in ('-isystem', '-idirafter')]
        r.shuffle(first)
        it = iter(keep)
        first = [next(it) if (a[0][:2] == '-I' or a[0] in ('-isystem', '-idirafter')) else a for a in first]
        if any(x.kind == 'l' for x in items):
            first.insert(r.randrange(len(first) + 1), r.choice([['-Llib'], ['-L', 'lib']]))
            if r.random() < .3:
                first.insert(0, ['-L', 'nolib'])
        # options may come between and after the inputs
        seq = [[('-l', x)] if x.kind == 'l' else [('f', x)] for x in items]
        for a in first:
            seq.insert(r.randrange(len(seq) + 1) if a[0][:2] not in ('-x', '-I') and a[0] not in ('-isystem', '-idirafter') and r.random() < .3 else 0, a)
        # -x counts for what follows in other drivers: keep it first
        seq.sort(key=lambda a: 0 if isinstance(a[0], str) and a[0][:2] == '-x' else 1)
        incs = iter(keep)
        for a in seq:
            if isinstance(a[0], str):
                if a[0][:2] == '-I' or a[0] in ('-isystem', '-idirafter'):
                    a = next(incs)
                self.args += a
            elif a[0][0] == '-l':
                nm = os.path.basename(a[0][1].name)[3:-2]
                self.args += r.choice([['-l' + nm], ['-l', nm]])
            else:
                self.args.append(a[0][1].name)

    def describe(self):
        return '%s %s %s' % (self.mode, '+'.join(x.kind + (':' + x.bad if x.bad else '') + ('-' if x.name == '-' else '') for x in self.items), self.linkbad)


def tool(name, args, cwd, input=b''):
    return core.run2([_d + '/' + name] + args, cwd=cwd, input=input, timeout=30)


def reference(job, w, x):
    """-> {stage: bytes} of one C source run through the stages by hand; stops at the failing stage."""
    out = {}
    a = ['-D' + m for m in PREDEF]
    for o, d in job.hdirs:
        a += [o, d]
    for k, v in job.defs:
        a += ['-D', k if v is None else k + '=' + v]
    if job.comments:
        a.append('-C')
    if not job.nostdinc:
        a += ['-idirafter', os.path.join(os.path.dirname(w), 'tc', 'include')]
    c = tool('cpp', a + ([] if x.name == '-' else [x.name]), w, input=x.text.encode())
    if c.timeout:
        raise TimeoutError
    if c.rc:
        return out
    out['E'] = c.out
    c = tool('cc1', job.cc1o + ['-'], w, input=c.out)
    if c.timeout:
        raise TimeoutError
    if c.rc:
        return out
    out['S'] = c.out
    ref_o = os.path.join(os.path.dirname(w), 'ref.o')
    c = tool('as', ['-o', ref_o, '-'], w, input=c.out)
    if c.rc == 0:
        out['c'] = open(ref_o, 'rb').read()
    return out


def snapshot(w):
    s = {}
    for root, ds, fs in os.walk(w):
        for f in fs:
            p = os.path.join(root, f)
            st = os.lstat(p)
            with open(p, 'rb') as fp:
                s[os.path.relpath(p, w)] = (fp.read(), st.st_mode & 0o777)
        for d in ds:
            s.setdefault(os.path.relpath(os.path.join(root, d), w) + '/', None)
    return s


STALE = b'what was here before\n'


def setup(job, w):
    for d in ('sub/d.d', 'lib', 'out', 'nolib'):
        os.makedirs(os.path.join(w, d), exist_ok=True)
    for n, t in job.files.items():
        os.makedirs(os.path.join(w, os.path.dirname(n)), exist_ok=True)
        target.write(w, n, t)
    for x in job.items:
        p = os.path.normpath(x.name)
        if x.bad == 'missing' or x.name == '-':
            continue
        if x.bad == 'dir':
            os.makedirs(os.path.join(w, p))
        elif x.kind in 'cs':
            target.write(w, p, x.text)
        else:
            o = os.path.join(w, 'lib', x.part + '.tmp')
            if x.bad == 'text':
                target.write(w, p, 'this is not an object\n' * 20)
                continue
            y = tool('as', ['-o', o, '-'], w, input=x.text.encode())
            if y.rc:
                raise core.HarnessError('as: ' + y.err.decode())
            if x.kind == 'o':
                b = open(o, 'rb').read()
                target.write(w, p, b[:len(b) // 3] if x.bad == 'trunc' else b)
            else:
                y = core.run(['ar', 'rcs', os.path.join(w, p), o])
                if y.rc:
                    raise core.HarnessError('ar: ' + y.err.decode())
            os.unlink(o)


def expect(job, w):
    """-> ok, {output file: bytes}, expected standard output (E/S to -), {output of a stage that fails}, stages run before"""
    outs, std, undecided = {}, b'', set()
    ok = True
    for i, x in enumerate(job.items):
        if x.kind not in 'cs':
            continue
        o = None
        if job.mode in 'ES' and x.kind == 'c':
            o = job.out or ('-' if job.mode == 'E' else os.path.splitext(os.path.basename(x.name))[0] + '.s' if x.name != '-' else '-.s')
        elif job.mode == 'c':
            o = job.out or (os.path.splitext(os.path.basename(x.name))[0] + '.o' if x.name != '-' else '-.o')
        if x.bad == 'unknown' and job.mode != 'E' and not any(y.via_x for y in job.items):
            ok = False
            break
        if job.mode in 'ES' and x.kind == 's':
            continue            # nothing to do for it
        fails = x.bad in ('missing', 'dir')
        if x.kind == 'c' and not fails:
            x.ref = reference(job, w, x)
            need = {'E': 'E', 'S': 'S', 'c': 'c', 'x': 'c'}[job.mode]
            fails = need not in x.ref
            if not fails and job.mode != 'x':
                if o == '-':
                    std += x.ref[need]
                else:
                    outs[o] = x.ref[need]
            should = x.stage <= {'E': 0, 'S': 1, 'c': 2, 'x': 2}[job.mode] or (job.nostdinc and ('<stdio.h>' in x.text or '<string.h>' in x.text and not any(d + '/string.h' in job.files for d in job.search)))
            if should != fails:
                raise core.HarnessError('reference %s: stages %s, expected failure %s\n%s\n%s %s' % (x.name, list(x.ref), should, x.text[:300], job.args, x.ref))
        elif x.kind == 's':
            fails = fails or x.bad == 'as'
            if not fails and job.mode == 'c':
                ref_o = os.path.join(os.path.dirname(w), 'ref.o')
                y = tool('as', ['-o', ref_o, x.name], w)
                if y.rc:
                    raise core.HarnessError('as: %s' % y.err.decode())
                outs[o] = open(ref_o, 'rb').read()
        if fails:
            ok = False
            if o not in (None, '-'):
                undecided.add(os.path.normpath(o))
            for y in job.items[i + 1:]:
                if y.kind in 'cs' and job.mode in 'ESc':
                    undecided.add(os.path.splitext(os.path.basename(y.name))[0] + {'E': '', 'S': '.s', 'c': '.o'}[job.mode])
            break
    if job.baddir and (outs or std or job.mode == 'x'):
        ok = False
        outs = {}
    elif job.baddir and job.mode in 'ESc':
        pass
    if job.mode == 'x' and ok:
        if job.linkbad or any(x.bad in ('text', 'trunc', 'missing') for x in job.items):
            ok = False
    return ok, {os.path.normpath(k): v for k, v in outs.items()}, std, undecided


def read_log(fn):
    """-> [(kind, tool, pid, status, args)]"""
    out = []
    if os.path.exists(fn):
        for l in open(fn, 'rb').read().decode('latin-1').split('\n'):
            f = l.split('\x1f')
            if len(f) >= 4 and f[0] in 'SE':
                out.append((f[0], f[1], int(f[2]), int(f[3]), f[4:]))
    return out


def alive(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            return f.read().rsplit(')', 1)[1].split()[0] not in 'ZX'
    except OSError:
        return False


def toolchain(d, without=()):
    os.makedirs(d)
    for n in ('lib', 'include'):
        os.symlink(os.path.join(_d, n), os.path.join(d, n))
    shutil.copyfile(os.path.join(_d, 'xcc'), os.path.join(d, 'xcc'))
    os.chmod(os.path.join(d, 'xcc'), 0o755)
    for t in ('cpp', 'cc1', 'as', 'ld'):
        if t not in without:
            shutil.copyfile(_wrap, os.path.join(d, t))
            os.chmod(os.path.join(d, t), 0o755)


FAULTS = ['before', 'after', 'mid', 'slowstart', 'slowend', 'fsize', 'partial', 'nothere']


def drive(job, wd, n, fault=None, without=()):
    """One run. -> dict of what was observed"""
    w = os.path.join(wd, 'w%d' % n)
    os.makedirs(w)
    setup(job, w)
    return w


def stale(job, w, names_):
    for f in names_:
        p = os.path.join(w, f)
        if os.path.isdir(os.path.dirname(p)) and not os.path.exists(p):
            with open(p, 'wb') as fp:
                fp.write(STALE)
            os.chmod(p, 0o755)


def observe(job, wd, w, tc, fault, timeout=30):
    log, files = os.path.join(wd, 'stages.log'), os.path.join(wd, 'files.log')
    for f in os.listdir(wd):
        if f.startswith(('stages.log', 'files.log')):
            os.unlink(os.path.join(wd, f))
    env = {'TW_REAL': _d, 'TW_LOG': log, 'TW_FILES': files, 'LD_PRELOAD': _so}
    if fault:
        env['TW_FAULT'] = fault
    before = snapshot(w)
    x = core.run([os.path.join(tc, 'xcc')] + job.args, cwd=w, env=env, input=job.stdin, timeout=timeout)
    lg = read_log(log)
    left = [t for k, t, pid, _, _ in lg if k == 'S' and alive(pid)]
    if left:
        time.sleep(.3)   # a killed process may need a moment to be gone
        left = [t for k, t, pid, _, _ in lg if k == 'S' and alive(pid)]
    after = snapshot(w)
    created = set()
    if os.path.exists(files):
        created = set(open(files, errors='replace').read().split('\n')) - {''}
    trash = sorted(f for f in created if not os.path.realpath(f).startswith(os.path.realpath(wd) + '/') and os.path.lexists(f))
    return x, lg, left, before, after, trash, created


def stagecheck(job, lg, ok):
    """The log of stages against the order C14 asks for."""
    if any(k == 'S' and t == 'ld' for k, t, *_ in lg) and job.mode != 'x':
        return 'ld was run'
    started = [(i, t, pid, a) for i, (k, t, pid, _, a) in enumerate(lg) if k == 'S']
    ended = {pid: (i, st) for i, (k, t, pid, st, _) in enumerate(lg) if k == 'E'}
    lds = [(i, a) for i, t, _, a in started if t == 'ld']
    if len(lds) > 1:
        return 'ld was run %d times' % len(lds)
    if lds:
        for i, t, pid, a in started:
            if t == 'ld':
                continue
            if pid not in ended or ended[pid][0] > lds[0][0]:
                return 'ld was started before %s ended' % t
            if ended[pid][1] != 0:
                return 'ld was run although %s failed' % t
    nc = sum(x.kind == 'c' or x.bad == 'unknown' for x in job.items)
    ns = sum(x.kind == 's' for x in job.items)
    lim = {'cpp': nc, 'cc1': nc if job.mode != 'E' else 0, 'as': nc + ns if job.mode in 'cx' else 0, 'ld': 1 if job.mode == 'x' else 0}
    for t, m in lim.items():
        k = sum(u == t for _, u, _, _ in started)
        if k > m:
            return '%s was run %d times, %d needed at most' % (t, k, m)
        if ok and k < m:
            return '%s was run %d times, %d needed' % (t, k, m)
    return None


def judge(res, job, wd, w, tc, fault, ok, outs, std, undecided, must, tag, exe=None, stalefiles=(), confirm=True):
    """must: True (has to succeed), False (has to fail), None (either, but consistently)"""
    x, lg, left, before, after, trash, created = observe(job, wd, w, tc, fault)
    if x.timeout:
        if confirm:
            shutil.rmtree(w)
            os.makedirs(w)
            setup(job, w)
            stale(job, w, stalefiles)
            return judge(res, job, wd, w, tc, fault, ok, outs, std, undecided, must, tag, exe, stalefiles, False)
        res.bad('driver does not end (%s): %s' % (tag, ' '.join(job.args)), {'args': ' '.join(job.args)})
        return None
    files = {'args.txt': ' '.join(job.args) + '\nfault: %s\n' % fault, 'stderr.txt': x.err, 'stdout.txt': x.out, 'stages.txt': '\n'.join(map(str, lg)), 'stdin.txt': job.stdin}
    for y in job.items:
        files['in/' + os.path.basename(y.name)] = y.text
    for n, t in job.files.items():
        files['in/' + n] = t
    res.evals += 1
    res.events += len(lg) + len(created)
    res.count('stages', sum(e[0] == 'S' for e in lg))
    what = None
    win = x.rc == 0
    if not win and x.rc not in (1, 2) and x.rc < 0:
        what = 'the driver died: %s' % x.brief()
    elif must is True and not win:
        what = 'exit status %d, but every stage succeeds' % x.rc
    elif must is False and win:
        what = 'exit status 0, but a stage failed'
    elif trash:
        what = 'left behind: %s' % ' '.join(trash)
    elif left:
        what = 'still running after the driver ended: %s' % ' '.join(left)
    if what is None:
        what = stagecheck(job, lg, win)
    if what is None and not win and not x.err.strip() and not any(f in (fault or '') for f in ('before', 'after', 'mid', 'partial')):
        what = 'failure without a message'
    if what is None:
        exename = os.path.normpath(job.out or 'a.out') if job.mode == 'x' else None
        mapname = 'prog.map' if job.mode == 'x' and job.map else None
        for f in sorted(set(before) | set(after)):
            b, a = before.get(f, 0), after.get(f, 0)
            if f == exename and not job.baddir:
                if not win:
                    if a != 0 and a != b:
                        what = '%s: output of a failed run' % f
                elif a == 0:
                    what = 'no output file %s' % f
                elif not a[1] & 0o100:
                    what = '%s is not executable' % f
            elif f == mapname:
                if win and a == 0:
                    what = 'no map file'
            elif f in outs:
                if win and a == 0:
                    what = 'no output file %s' % f
                elif a != 0 and a[0] != outs[f] and (win or a != b):
                    what = '%s: not what the stages give (%d bytes, expected %d)' % (f, len(a[0]), len(outs[f]))
                    files['expected'], files['got'] = outs[f], a[0]
            elif f in undecided:
                if a != 0 and a != b:
                    what = '%s: output of a failed run' % f
            elif a != b:
                what = '%s was %s' % (f, 'deleted' if a == 0 else 'created' if b == 0 else 'changed')
            if what:
                break
        if what is None and win:
            for f in list(outs) + [exename, mapname]:
                if f and f not in after:
                    what = 'no output file %s' % f
        if what is None and win and job.mode in 'ES' and x.out != std:
            what = 'standard output is not what the stages give (%d bytes, expected %d)' % (len(x.out), len(std))
        elif what is None and win and job.mode not in 'ES' and x.out:
            what = 'unexpected standard output'
    got = None
    if what is None and win and exename:
        y = core.run2(['./' + exename], cwd=w, timeout=10)
        exp = ''.join('%s=%d\n' % (i.part, i.val) for i in sorted((i for i in job.items if i.part), key=lambda i: i.part))
        if y.timeout:
            res.inconclusive += 1
        elif y.out.decode('latin-1') != exp or y.rc != job.status:
            what = 'the program prints something else or ends otherwise (%s, expected %d)' % (y.brief(), job.status)
            files['expected'], files['got'] = exp, y.out
        got = after[exename][0]
    res.distinct.add((tag, job.mode, tuple(sorted({i.kind + (i.bad or '') for i in job.items})), job.linkbad, x.rc))
    if what:
        res.bad('%s [%s; %s] xcc %s' % (what, tag, job.describe(), ' '.join(job.args)), files)
        return None
    return x, lg, got, after


def case(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    job = Job(r, wd)
    w = os.path.join(wd, 'w')
    os.makedirs(w)
    setup(job, w)
    tc = os.path.join(wd, 'tc')
    toolchain(tc)
    try:
        ok, outs, std, undecided = expect(job, w)
    except TimeoutError:
        res.inconclusive += 1
        return res
    exename = os.path.normpath(job.out or 'a.out') if job.mode == 'x' else None
    st = [f for f in list(outs) + sorted(undecided) + [exename] if f] if r.random() < .5 and not job.baddir else []
    st = [f for f in st if f not in job.files and all(os.path.normpath(i.name) != f for i in job.items)]
    stale(job, w, st)
    y = judge(res, job, wd, w, tc, None, ok, outs, std, undecided, ok, 'plain', exename, st)
    res.count('plain')
    if y is None:
        return res
    x, lg, exe, after = y
    sizes = {}
    # ---- the same with faults
    started = [t for k, t, *_ in lg if k == 'S']
    for k in range(r.choice([1, 2, 3])):
        if not started:
            break
        mode = r.choice(FAULTS)
        t = r.choice(started)
        if mode == 'partial' and t not in ('cpp', 'cc1'):
            mode = 'after'
        if mode == 'fsize' and t not in ('as', 'ld'):
            t = 'as' if 'as' in started else 'ld' if 'ld' in started else None
            if t is None:
                if job.mode in 'ES' and job.out not in (None, '-'):
                    t = started[-1] if job.mode == 'S' else 'cpp'
                else:
                    continue
        nth = r.randrange(1, started.count(t) + 1)
        must = False
        without = ()
        fault = None
        if mode == 'nothere':
            without = (t,)
        else:
            arg = {'before': r.choice([1, 2, 77, 255, -9, -11, -15, -6]), 'after': r.choice([1, 2, 77, 255, -9, -11]), 'mid': r.choice([1, 3, -9]),
                   'slowstart': r.choice([30, 150]), 'slowend': r.choice([30, 150]), 'fsize': r.choice([0, 1, 100, 500, 4000]), 'partial': r.choice([0, 10, 200, 5000])}[mode]
            fault = '%s:%d:%s:%d' % (t, nth, mode, arg)
            if mode in ('slowstart', 'slowend'):
                must = ok
            if mode == 'fsize':
                must = None
                if t == 'ld' and exe is not None and len(exe) > arg:
                    must = False
                if job.mode == 'c' and started.count('as') == 1 and len(outs) == 1 and len(list(outs.values())[0]) > arg:
                    must = False
                if not ok:
                    must = False
        tc2 = tc
        if without:
            tc2 = tc
            for t2 in without:
                os.rename(os.path.join(tc, t2), os.path.join(wd, 'gone'))
        w2 = os.path.join(wd, 'w')
        shutil.rmtree(w2)
        os.makedirs(w2)
        setup(job, w2)
        st = [f for f in list(outs) + sorted(undecided) + [exename] if f] if r.random() < .5 and not job.baddir else []
        st = [f for f in st if f not in job.files and all(os.path.normpath(i.name) != f for i in job.items)]
        stale(job, w2, st)
        if must is not True and job.mode in 'ESc':
            # which of the outputs are made is open, but those made are right
            pass
        res.count('faults')
        if judge(res, job, wd, w2, tc2, fault, ok, outs, std, undecided, must, mode + ' ' + t, exename, st) is None:
            break
        for t2 in without:
            os.rename(os.path.join(wd, 'gone'), os.path.join(tc, t2))
    if res.sample is None:
        res.sample = {'args': ' '.join(job.args)[:300], 'job': job.describe(), 'stages': ' '.join(started)}
    return res


def misc(seed, wd):
    """Options without inputs, wrong options, special programs."""
    res = core.CaseResult()
    tc = os.path.join(wd, 'tc')
    toolchain(tc)
    w = os.path.join(wd, 'w')
    os.makedirs(w)
    target.write(w, 'm.c', 'int main(void) { return 5; }\n')
    target.write(w, 'p.c', '#include <stdio.h>\nint main(void) { printf("x\\n"); return 0; }\n')
    target.write(w, 's.s', '\t.globl _start\n\t.text\n_start:\n\tmov $60, %eax\n\tmov $9, %edi\n\tsyscall\n')
    target.write(w, 'w.c', 'int f(void) { }\nint main(void) { return 0; }\n')
    target.write(w, 'k.txt', '\t.globl main\n\t.text\nmain:\n\tmov $6, %eax\n\tret\n')
    # (arguments, exit status 0?, file made, its exit status when run, pattern in stdout+stderr)
    table = [
        (['--help'], True, None, None, 'Usage'), (['--version'], True, None, None, 'xcc'), (['-dumpversion'], True, None, None, r'\d'),
        ([], False, None, None, 'No input'), (['-c'], False, None, None, 'No input'), (['-o', 'x.out'], False, None, None, 'No input'),
        (['-x', 'fortran', 'm.c'], False, None, None, 'fortran'), (['m.c'], True, 'a.out', 5, None), (['m.c', '-o', 'x.exe'], True, 'x.exe', 5, None),
        (['-nostdlib', 's.s', '-o', 'x.exe'], True, 'x.exe', 9, None), (['-nostdlib', 'm.c', '-o', 'x.exe'], False, None, None, None),
        (['s.s', '-o', 'x.exe'], False, None, None, None), (['-nodefaultlibs', 'm.c', '-o', 'x.exe'], None, None, None, None),
        (['-nodefaultlibs', 'p.c', '-o', 'x.exe'], False, None, None, None), (['-nostdinc', 'p.c', '-o', 'x.exe'], False, None, None, 'stdio'),
        (['-Wall', '-Werror', '-c', 'w.c'], None, None, None, None), (['-xassembler', 'k.txt', '-o', 'x.exe'], True, 'x.exe', 6, None),
        (['-lnone', 'm.c', '-o', 'x.exe'], False, None, None, 'none'), (['m.c', '-l', 'none', '-o', 'x.exe'], False, None, None, 'none'),
        (['nofile.c'], False, None, None, 'nofile'), (['k.txt'], False, None, None, 'k.txt'), (['', 'm.c', '-o', 'x.exe'], True, 'x.exe', 5, None),
    ]
    log = os.path.join(wd, 'stages.log')
    for args, good, made, rc, pat in table:
        before = snapshot(w)
        env = {'TW_REAL': _d, 'TW_LOG': log, 'TW_FILES': os.path.join(wd, 'files.log'), 'LD_PRELOAD': _so}
        x = core.run2([os.path.join(tc, 'xcc')] + args, cwd=w, env=env)
        after = snapshot(w)
        if x.timeout:
            res.inconclusive += 1
            continue
        res.evals += 1
        what = None
        new = {f for f in after if after[f] != before.get(f)}
        if good is True and x.rc or good is False and (not x.rc or x.rc < 0) or x.rc < 0:
            what = 'exit status %d' % x.rc
        elif good is False and new:
            what = 'made %s' % new
        elif good is True and made and made not in new:
            what = 'did not make %s' % made
        elif good is True and new - {made}:
            what = 'made %s too' % (new - {made})
        elif pat and not re.search(pat, (x.out + x.err).decode('latin-1')):
            what = 'message lacks %r: %r' % (pat, (x.out + x.err)[:200])
        elif made:
            y = core.run2(['./' + made], cwd=w)
            if y.rc != rc:
                what = '%s ends with %s, expected %d' % (made, y.brief(), rc)
        res.distinct.add(('misc', tuple(args)))
        if what:
            res.bad('xcc %s: %s' % (' '.join(args), what), {'stderr.txt': x.err, 'stdout.txt': x.out})
        for f in new:
            if os.path.isfile(os.path.join(w, f)) and f not in before:
                os.unlink(os.path.join(w, f))
    left = [f for f in set(open(os.path.join(wd, 'files.log')).read().split('\n')) if f and not f.startswith(wd) and os.path.lexists(f)]
    if left:
        res.bad('left behind: %s' % left, {})
    return res


def entry(a, wd):
    return a[0](a[1], wd)


def check(ck):
    global _d, _wrap, _so
    _d = core.build('x64')
    _wrap = core.build_tool('toolwrap', ['harness/toolwrap.c'], flags=('-O1', '-w'))
    _so = core.build_tool('iolog.so', ['harness/iolog.c'], flags=('-O1', '-w', '-shared', '-fPIC'))
    ck.run_cases(entry, [(misc, 'm')] + [(case, '%s/%d/%d' % (ck.prop, ck.seed, i)) for i in range(ck.n(900, 15000))])
