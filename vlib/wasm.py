"""wcc as a target: modules are validated and run by node's WASI in a persistent server process."""
import json
import os
import select
import subprocess
from . import core
from .core import Res

_srv = None     # (pid of owner, Popen)


def server():
    global _srv
    if _srv is None or _srv[0] != os.getpid() or _srv[1].poll() is not None:
        p = subprocess.Popen(['node', '--no-warnings', os.path.join(core.VERIF, 'harness/wasmrun.js')],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             env=core.BASE_ENV, preexec_fn=core.default_signals)
        _srv = (os.getpid(), p)
    return _srv[1]


def stop():
    global _srv
    if _srv is not None and _srv[0] == os.getpid():
        _srv[1].kill()
        _srv[1].wait()
    _srv = None


def ask(q, timeout):
    """One request; None on a time-out."""
    p = server()
    try:
        p.stdin.write((json.dumps(q) + '\n').encode())
        p.stdin.flush()
        buf = b''
        fd = p.stdout.fileno()
        while not buf.endswith(b'\n'):
            if not select.select([fd], [], [], timeout)[0]:
                stop()
                return None
            b = os.read(fd, 1 << 16)
            if not b:
                rc = p.wait()
                stop()
                return {'rc': None, 'error': 'node ended with status %s' % rc, 'kind': 'node'}
            buf += b
        return json.loads(buf)
    except BrokenPipeError:
        stop()
        return {'rc': None, 'error': 'node is gone', 'kind': 'node'}


class Wasm:
    name = 'wasm'
    long_size = 4

    def __init__(self, opts=('--stack-size=1000000',), san=False):
        self.opts = list(opts)
        self.dir = core.build('wccasan' if san else 'wcc')
        self.xcc = os.path.join(self.dir, 'wcc')

    def compile(self, wd, sources, out='a.wasm', opts=(), timeout=20, **kw):
        return core.run2([self.xcc, *self.opts, *opts, '-o', out, *sources], cwd=wd, timeout=timeout,
                         env={'TMPDIR': wd}, **kw)

    def run(self, wd, out='a.wasm', args=(), timeout=20, input=None, env=None, preopens=None, fresh=None):
        q = {'wasm': os.path.join(wd, out), 'args': [out, *args], 'out': os.path.join(wd, '.out'),
             'err': os.path.join(wd, '.err'), 'env': env or {}, 'preopens': preopens or {}}
        if input is not None:
            q['in'] = os.path.join(wd, '.in')
            with open(q['in'], 'wb') as f:
                f.write(input)
        a = ask(q, timeout)
        for _ in range(3):
            if fresh is not None and (a is None or a.get('kind') == 'node'):
                fresh()
            if a is None:
                a = ask(q, timeout * 3)
            elif a.get('kind') == 'node':       # the engine itself failed: again in a new process
                stop()
                a = ask(q, timeout)
        if a is None:
            return Res(-9, b'', b'', True)
        o = open(q['out'], 'rb').read()
        e = open(q['err'], 'rb').read()
        if a['error'] is not None:
            return Res(-6, o, e + ('%s: %s' % (a.get('kind'), a['error'])).encode())
        return Res(a['rc'], o, e)
