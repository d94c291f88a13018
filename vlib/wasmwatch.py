"""Instruments a wasm module: every load and store first tells the imported function `hook` its address and whether it writes.

Runs such a module in node with the objects of volprog on a watched range; same log as volprog's native runtime."""
import json
import struct

MOD = 'wasi_snapshot_preview1'
BASE = 0x200000


class Rd:
    def __init__(self, b, i=0):
        self.b, self.i = b, i

    def u8(self):
        self.i += 1
        return self.b[self.i - 1]

    def leb(self):
        v = s = 0
        while True:
            c = self.u8()
            v |= (c & 127) << s
            s += 7
            if not c & 128:
                return v

    def take(self, n):
        self.i += n
        return self.b[self.i - n:self.i]

    def name(self):
        return self.take(self.leb())


def leb(v):
    o = b''
    while True:
        c = v & 127
        v >>= 7
        if v:
            o += bytes([c | 128])
        else:
            return o + bytes([c])


def sleb(v):
    o = b''
    while True:
        c = v & 127
        v >>= 7
        if (v == 0 and not c & 64) or (v == -1 and c & 64):
            return o + bytes([c])
        o += bytes([c | 128])


I32, I64, F32, F64 = 0x7f, 0x7e, 0x7d, 0x7c
STORE = {0x36: I32, 0x37: I64, 0x38: F32, 0x39: F64, 0x3a: I32, 0x3b: I32, 0x3c: I64, 0x3d: I64, 0x3e: I64}


def body(b, nparam, hook):
    """Function body (without its size) with a call of the hook before every access."""
    r = Rd(b)
    groups = [(r.leb(), r.u8()) for _ in range(r.leb())]
    n = nparam + sum(k for k, _ in groups)
    loc = {'a': n, I32: n + 1, I64: n + 2, F32: n + 3, F64: n + 4}
    out = leb(len(groups) + 5) + b''.join(leb(k) + bytes([t]) for k, t in groups) + bytes([1, I32, 1, I32, 1, I64, 1, F32, 1, F64])
    get, put, tee = (lambda l: b'\x20' + leb(l)), (lambda l: b'\x21' + leb(l)), (lambda l: b'\x22' + leb(l))
    while r.i < len(b):
        s = r.i
        op = r.u8()
        if 0x28 <= op <= 0x3e:
            r.leb()
            ofs = r.leb()
            call = b'\x41' + sleb(ofs) + b'\x6a\x41' + sleb(1 if op in STORE else 0) + b'\x10' + leb(hook)
            if op in STORE:
                t = STORE[op]
                out += put(loc[t]) + tee(loc['a']) + call + get(loc['a']) + get(loc[t])
            else:
                out += tee(loc['a']) + call + get(loc['a'])
            out += b[s:r.i]
            continue
        if op in (0x02, 0x03, 0x04, 0x06):
            r.leb()
        elif op in (0x07, 0x08, 0x09, 0x0c, 0x0d, 0x10, 0x12, 0x18, 0xd2) or 0x20 <= op <= 0x26:
            r.leb()
        elif op == 0x0e:
            for _ in range(r.leb() + 1):
                r.leb()
        elif op in (0x11, 0x13):
            r.leb()
            r.leb()
        elif op in (0x3f, 0x40):
            r.u8()
        elif op in (0x41, 0x42):
            r.leb()
        elif op == 0x43:
            r.take(4)
        elif op == 0x44:
            r.take(8)
        elif op == 0xd0:
            r.u8()
        elif op == 0xfc:
            k = r.leb()
            if k == 10:
                r.take(2)
            elif k == 11:
                r.take(1)
            elif k >= 8:
                raise ValueError('op fc %d' % k)
        elif op in (0x0b, 0x05, 0x00, 0x01, 0x0f, 0x19, 0x1a, 0x1b) or 0x45 <= op <= 0xc4:
            pass
        else:
            raise ValueError('op %x' % op)
        out += b[s:r.i]
    return out


def instrument(m):
    r = Rd(m, 8)
    secs = []
    while r.i < len(m):
        k = r.u8()
        secs.append((k, r.take(r.leb())))
    types, ftype, hook = [], [], None
    out = m[:8]
    for k, c in secs:
        s = Rd(c)
        if k == 1:
            for _ in range(s.leb()):
                s.u8()
                types.append(s.leb())
                s.take(types[-1])
                s.take(s.leb())
        elif k == 2:
            nf = 0
            for _ in range(s.leb()):
                s.name()
                n = s.name()
                kind = s.u8()
                if kind == 0:
                    s.leb()
                    if n == b'hook':
                        hook = nf
                    nf += 1
                elif kind == 3:
                    s.take(2)
                else:
                    f = s.leb() if kind == 2 else (s.u8(), s.leb())[1]
                    s.leb()
                    if f & 1:
                        s.leb()
        elif k == 3:
            ftype = [s.leb() for _ in range(s.leb())]
        elif k == 10:
            n = s.leb()
            nb = b''
            for i in range(n):
                b = body(s.take(s.leb()), types[ftype[i]], hook)
                nb += leb(len(b)) + b
            c = leb(n) + nb
        elif k == 0:
            continue
        out += bytes([k]) + leb(len(c)) + c
    return out


def runner(objs):
    """JavaScript that runs the instrumented module argv[2]."""
    return r'''
const fs = require('fs'), B = %d, OBJ = %s;
let log = [], pend = null, before, rnd = 12345, mem, dv, u8, cnt = 0;
const out = () => process.stdout.write(log.join('\n') + '\n');
const hex = v => v.toString(16).padStart(2, '0');
function device(o) {
  for (const [ofs, size, kind, dev] of OBJ) {
    if (o < ofs || o >= ofs + size || !dev) continue;
    rnd = (Math.imul(rnd, 1103515245) + 12345) >>> 0;
    const v = rnd >>> 16 & 63;
    if (kind == 'f') dv.setFloat32(B + ofs, v, true); else if (kind == 'd') dv.setFloat64(B + ofs, v, true);
    else { u8.fill(0, B + ofs, B + ofs + size); u8[B + ofs] = v; }
  }
}
function flush() {
  if (pend === null) return;
  let s = pend; pend = null;
  for (let i = 0; i < 512; i++) if (u8[B + i] != before[i]) s += ' ' + i + '=' + hex(u8[B + i]);
  log.push(s);
  if (++cnt > 20000) { log.push('RUNAWAY'); out(); process.exit(98); }
}
const W = {
  hook(a, w) { flush(); if (a < B || a >= B + 512) return; if (!w) device(a - B); before = u8.slice(B, B + 512); pend = (w ? 'W ' : 'R ') + (a - B); },
  sink(i, x) { flush(); log.push('s' + i + ' ' + BigInt.asUintN(64, x).toString(16)); },
  sinkd(i, x) { flush(); const b = Buffer.alloc(8); b.writeDoubleBE(x); log.push('d' + i + ' ' + b.toString('hex')); },
  part(i) { flush(); log.push('-- ' + i); rnd = i * 7919 + 3; },
};
const imp = new Proxy(W, { get: (t, n) => t[n] || (() => { throw new Error('import ' + String(n)); }), has: () => true });
const m = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const x = new WebAssembly.Instance(m, { '%s': imp, env: {} });
mem = x.exports.memory;
while (mem.buffer.byteLength < B + 65536) mem.grow(1);
dv = new DataView(mem.buffer); u8 = new Uint8Array(mem.buffer);
OBJ.forEach(([ofs, size, kind, dev], i) => {
  const v = 3 + i * 5 %% 50;
  if (kind == 'f') dv.setFloat32(B + ofs, v, true); else if (kind == 'd') dv.setFloat64(B + ofs, v, true); else if (kind == 'i') u8[B + ofs] = v;
});
try { x.exports.run(); flush(); } catch (e) { log.push('EXCEPTION ' + e.message); }
let s = 'end'; for (let i = 0; i < 512; i++) s += hex(u8[B + i]);
log.push(s); out();
''' % (BASE, json.dumps(objs), MOD)


def native(line):
    """A line of the native log in the form of this one."""
    if line[:1] == 'd':
        a, b = line.split(' ')
        return a + ' ' + struct.pack('>d', float.fromhex(b)).hex()
    return line
