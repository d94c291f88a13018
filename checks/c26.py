"""C26: program start and end, non-local jumps and system calls, observed from outside and by lockstep with the host."""
import os
import random
from vlib import core, libcheck, target
from vlib.lifecycle import Life, Jumps

RULE = ('one evaluation = one argument, environment entry, trace line of a constructor/handler/destructor, exit status, line printed around a non-local jump, '
        'child status or system-call result compared with the model, the kernel (through the host library) or what the parent passed; distinct = kinds and shapes of cases')
TECHNIQUE = 'runtime monitoring: traces of start-up, exit and jumps against a model; system calls in lockstep with the host library in twin directories'
MIN_EVALS = 5000
_tg = _exe = _proc = None


def lifecase(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    p = Life(r)
    for i, s in enumerate(p.units):
        target.write(wd, 'u%d.c' % i, s)
    files = {'u%d.c' % i: s for i, s in enumerate(p.units)}
    files['expected.txt'] = '\n'.join(p.expected) + '\n'
    if r.random() < .5:
        c = _tg.compile(wd, ['u%d.c' % i for i in range(len(p.units))])
    else:
        for i in range(len(p.units)):
            c = core.run2([_tg.xcc, '-c', '-o', 'u%d.o' % i, 'u%d.c' % i], cwd=wd, env={'TMPDIR': wd})
            if c.rc:
                break
        else:
            c = _tg.compile(wd, ['u%d.o' % i for i in range(len(p.units))])
    if c.rc != 0 or c.timeout:
        res.bad('start and exit (seed %s): not built: %s %s' % (seed, c.brief(), target.first_error(c.err)), files)
        return res
    x = _tg.run(wd)
    got = x.out.decode('latin-1').split('\n')[:-1]
    files['got.txt'] = x.out
    res.evals += len(p.expected) + 1
    res.events += len(got)
    res.distinct |= p.ops
    if x.rc != p.exit:
        res.bad('start and exit (seed %s): %s, expected exit %d' % (seed, x.brief(), p.exit), files)
    elif got != p.expected:
        i = next((i for i, (a, b) in enumerate(zip(got, p.expected)) if a != b), min(len(got), len(p.expected)))
        res.bad('start and exit (seed %s): event %d is %s, expected %s' % (
            seed, i, got[i] if i < len(got) else 'missing', p.expected[i] if i < len(p.expected) else 'nothing'), files)
    res.sample = {'events': p.expected[:8], 'exit': p.exit}
    return res


def jumpcase(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    p = Jumps(r)
    target.decide(res, _tg, wd, p, opts=r.choice([[], [], ['--apply-ssa'], ['-O2']]), note=' jumps seed %s' % seed)
    return res


def syscase(seed, wd):
    res = core.CaseResult()
    libcheck.run_inprocess(res, _exe, wd, seed, _n)
    return res


def rbytes(r):
    k = r.randrange(7)
    n = r.choice([0, 1, 2, 7, 8, 9, 30, 100, 1000])
    if k == 0:
        return bytes(r.randint(1, 255) for _ in range(n))
    if k == 1:
        return b'--' + b'x' * n
    if k == 2:
        return ' \t\n"\'$`\\*?'.encode() * (n // 4)
    return ''.join(r.choice('abcXYZ019 =/-_.') for _ in range(n)).encode()


def argcase(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    for _ in range(6):
        n = r.choice([0, 1, 2, 3, 5, 10, 50, 1500])
        args = [rbytes(r) for _ in range(n)] if n < 100 else [b'%d' % i for i in range(n)]
        if args and args[0] in (b'stat', b'execvp', b'execve', b'kids', b'code', b'exit'):
            args[0] = b''
        a0 = r.choice([b'prog', b'', b'./x y', _proc.encode(), b'\xff'])
        env = {}
        for _ in range(r.choice([0, 0, 1, 2, 5, 40, 400])):
            k = ''.join(r.choice('ABC_abc019') for _ in range(r.randint(1, 12))).encode()
            env[k] = rbytes(r)
        via = r.choice(['direct', 'execve', 'execve'])
        if via == 'direct':
            pid = [a0] + args
            x = run_exec(_proc, pid, env, wd)
        else:
            if len(args) + len(env) > 1000:
                continue
            x = run_exec(_proc, [b'p', b'execve', _proc.encode(), a0] + args, env, wd)
        want = [b'%d' % (len(args) + 1), b'a' + a0.hex().encode()] + [b'a' + a.hex().encode() for a in args]
        for k, v in env.items():
            want.append(b'e' + (k + b'=' + v).hex().encode())
        for k, v in env.items():
            want.append(b'g' + v.hex().encode())
        got = x.out.split(b'\n')[:-1]
        res.evals += len(want)
        res.events += len(got)
        res.distinct.add(('args', via, n, min(len(env), 41)))
        if got != want or x.rc != 42:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            res.bad('arguments seed=%s %s: %s, line %d is %r, expected %r' % (
                seed, via, x.brief(), i, got[i][:80] if i < len(got) else None, want[i][:80] if i < len(want) else None), {'got': x.out, 'expected': b'\n'.join(want)})
            return res
    # exit codes
    for _ in range(6):
        c = r.choice([0, 1, 2, 127, 128, 255, 256, 257, -1, -256, 65535, 2147483647, -2147483648, r.randint(-1000, 1000)])
        m = r.choice(['code', 'exit'])
        x = run_exec(_proc, [b'p', m.encode(), b'%d' % c], {}, wd)
        res.evals += 1
        if x.rc != c & 255:
            res.bad('%s %d ends with %s' % (m, c, x.brief()))
    # children
    kids = [r.choice(['e', 'k', 'x']) for _ in range(r.randint(0, 8))]
    kids = [k + str(r.choice([9, 15, 1, 2, 10, 12]) if k == 'k' else r.randint(0, 255)) for k in kids]
    x = run_exec(_proc, [_proc.encode(), b'kids'] + [k.encode() for k in kids], {b'PATH': b'/bin'}, wd)
    want = []
    for i in range(len(kids) - 1, -1, -1):
        want.append('%d %s %s' % (i, 'signal' if kids[i][0] == 'k' else 'exit', kids[i][1:]))
    nb = sum(1 for k in kids if k[0] != 'k')
    got = x.out.decode('latin-1').split('\n')[:-1]
    res.evals += len(want) + 2
    res.events += len(got)
    res.distinct.add(('kids', len(kids)))
    ok = got[:len(want)] == want and len(got) == len(want) + 2 and nb <= int(got[-2].split()[0]) <= len(kids) and got[-1] == '-1 10'
    if not ok or x.rc != 0:
        res.bad('children %s: %s, %r, expected %r' % (kids, x.brief(), got, want))
    # execvp searches PATH
    os.makedirs(os.path.join(wd, 'p1'), exist_ok=True)
    os.makedirs(os.path.join(wd, 'p2'), exist_ok=True)
    for d in ('p1', 'p2'):
        if not os.path.exists(os.path.join(wd, d, 'tool')):
            os.symlink(_proc, os.path.join(wd, d, 'tool'))
    with open(os.path.join(wd, 'p1', 'blocked'), 'w') as f:
        f.write('x')
    if not os.path.exists(os.path.join(wd, 'local')):
        os.symlink(_proc, os.path.join(wd, 'local'))
    for name, path, ok in [('tool', 'p1:p2', 1), ('tool', 'nodir:p2', 1), ('./local', '', 1), ('p1/tool', 'nodir', 1), ('tool', 'nodir', 2), ('blocked', 'p2:p1', 13), ('local', ':p1', 1), ('local', 'p1:', 1),
                           ('none', 'p1:p2', 2), ('', 'p1', 2)]:
        x = run_exec(_proc, [b'p', b'execvp', name.encode(), b'n', b'code', b'33'], {b'PATH': path.encode()}, wd)
        res.evals += 1
        good = x.rc == 33 if ok == 1 else x.rc == 99 and x.out == b'failed -1 %d\n' % ok
        if not good:
            res.bad('execvp(%r) with PATH=%r: %s %r, expected %s' % (name, path, x.brief(), x.out[:60], 'the program' if ok == 1 else 'errno %d' % ok))
    # stat
    names = []
    for i in range(8):
        p = os.path.join(wd, 's%d' % i)
        k = r.randrange(5)
        if os.path.lexists(p):
            continue
        if k == 0:
            os.mkdir(p)
        elif k == 1:
            os.symlink('x' * r.randint(1, 50), p)
        elif k == 2:
            os.mkfifo(p)
        else:
            with open(p, 'wb') as f:
                f.write(bytes(r.choice([0, 1, 511, 512, 513, 5000])))
        if k != 1:
            os.chmod(p, r.randint(0, 0o7777))
            os.utime(p, ns=(r.randint(0, 2**33) * 10**9 + r.randint(0, 999999999), r.randint(0, 2**33) * 10**9 + r.randint(0, 999999999)))
        names.append(p)
    names += [os.path.join(wd, 'nope'), '/dev/null', '/']
    x = run_exec(_proc, [b'p', b'stat'] + [n.encode() for n in names], {}, wd)
    want = []
    for n in names:
        try:
            s = os.lstat(n)
        except OSError as e:
            want.append('-1 %d' % e.errno)
            continue
        want.append('%d %d %d %x %d %d %d %d %d %d %d %d %d %d' % (s.st_dev, s.st_ino, s.st_nlink, s.st_mode, s.st_uid, s.st_gid, s.st_rdev, s.st_size, s.st_blksize, s.st_blocks,
                                                                  s.st_mtime_ns // 10**9, s.st_mtime_ns % 10**9, s.st_atime_ns % 10**9, s.st_ctime_ns % 10**9))
        want.append({0o100000: 'f', 0o40000: 'd', 0o120000: 'l', 0o20000: 'c', 0o10000: 'p'}[s.st_mode & 0o170000])
    got = x.out.decode('latin-1').split('\n')[:-1]
    res.evals += len(want)
    if got != want:
        res.bad('stat: %r, expected %r' % ([g for g, w in zip(got, want) if g != w][:2], [w for g, w in zip(got, want) if g != w][:2]))
    return res


def run_exec(exe, argv, env, wd):
    import subprocess
    import signal
    p = subprocess.Popen(argv, executable=exe, env=env, cwd=wd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=core.default_signals)
    try:
        out, err = p.communicate(timeout=60)
        return core.Res(p.returncode, out, err)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return core.Res(-9, out, err, True)


def check(ck):
    global _tg, _exe, _n, _proc
    _tg = target.X64()
    _exe = libcheck.inprocess('syscalls.c')
    _n = ck.n(3000, 10000)
    _proc = os.path.join(core.scratch(), 'proc')
    r = _tg.compile(core.scratch(), [os.path.join(libcheck.H, 'proc.c')], out='proc')
    if r.rc != 0:
        raise core.BuildFailed('proc.c not compiled: ' + r.err.decode()[-500:])
    ck.run_cases(syscase, ['%s/s%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(12, 100))])
    ck.run_cases(argcase, ['%s/a%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(40, 400))])
    ck.run_cases(lifecase, ['%s/l%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(300, 5000))])
    ck.run_cases(jumpcase, ['%s/j%d/%d' % (ck.prop, ck.seed, i) for i in range(ck.n(300, 5000))])
