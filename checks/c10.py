"""C10: the x86-64 assembler against the GNU assembler: instructions decoded from both objects, branch targets, data, alignment, symbols."""
import os
import random
import re
import struct
from vlib import core, elf, x64asm
from vlib.x64asm import Gen, Item, Layout

RULE = ('one evaluation = one source line (instruction, datum, alignment or symbol) whose encoding in the object of the assembler under test means the same as in the '
        'object of the reference assembler and as its text says; distinct = instruction shapes (mnemonic and operand kinds), and kinds of data, branches and symbols')
TECHNIQUE = 'runtime monitoring: objects written by the running assembler are decoded item by item and compared with a reference assembler'
MIN_EVALS = 20000
_as = None


def assemble(tool, wd, src, out):
    p = os.path.join(wd, 'in.s')
    with open(p, 'w') as fp:
        fp.write(src)
    o = os.path.join(wd, out)
    if os.path.exists(o):
        os.unlink(o)
    return core.run2([tool, '-o', o, p], cwd=wd, timeout=20)


def render(items):
    return '.text\n' + '\n'.join('.globl I%d\nI%d:\n%s' % (i, i, it.text) for i, it in enumerate(items)) + '\n.globl I%d\nI%d:\n' % (len(items), len(items))


def linemap(items):
    m, n = {}, 2
    for i, it in enumerate(items):
        n += 2
        for _ in it.text.split('\n'):
            m[n] = i
            n += 1
    return m


def prune(items):
    """Without the differences of labels that went with a rejected line."""
    n = None
    while n != len(items):
        n = len(items)
        have = set(re.findall(r'^([pq]\d+):', '\n'.join(it.text for it in items), re.M))
        items = [it for it in items if not (it.kind == 'data' and it.sym and any(l[0] in 'pq' and l not in have for l, _ in it.sym[0]))]
    return items


def gas_filter(wd, items):
    """Items the reference assembler accepts."""
    for _ in range(4):
        g = assemble('as', wd, render(items), 'g.o')
        lm = linemap(items)
        bad = set()
        for m in re.finditer(rb'in\.s:(\d+): (Error|Warning)', g.err):
            if int(m.group(1)) in lm:
                bad.add(lm[int(m.group(1))])
        if not bad:
            if g.rc != 0:
                raise core.HarnessError('reference assembler: ' + g.err.decode()[:300])
            return items
        items = prune([it for i, it in enumerate(items) if i not in bad])
    return items


def xcc_filter(res, wd, items):
    """Items the assembler under test accepts; unexpected rejections are violations."""
    for _ in range(6):
        src = render(items)
        x = assemble(_as, wd, src, 'x.o')
        if x.rc == 0:
            return items
        lm = linemap(items)
        bad = set()
        for m in re.finditer(rb'in\.s\((\d+)\)', x.err):
            if int(m.group(1)) in lm:
                bad.add(lm[int(m.group(1))])
        if not bad:
            # an error without a line: find an item that causes it alone
            for it in items:
                use = [] if it.sym is None else [l for l, _ in it.sym[0]] if it.kind == 'data' else [it.sym[0]]
                y = assemble(_as, wd, '.text\nI0:\n.globl I1\n%s\nI1:\n%s\n' % (it.text, ''.join(l + ':\n' for l in use if l[0] == 'u')), 'y.o')
                if y.rc != 0 and not any(l[0] in 'pq' for l in use):
                    res.bad('the assembler fails on %r: %s' % (it.text, y.brief()), {'in.s': it.text + '\n', 'err.txt': y.err})
                    return None
            res.bad('the assembler fails without a located error: %s' % x.brief(), {'in.s': src, 'err.txt': x.err})
            return None
        for i in bad:
            res.count('rejected_lines')
            if items[i].must:
                res.bad('rejected: %r (%s): %s' % (items[i].text, items[i].shape, x.err.decode('latin-1').strip().split('\n')[0]), {'in.s': src, 'err.txt': x.err})
                return None
        items = [it for i, it in enumerate(items) if i not in bad]
        items = prune(items)
    return items


def compare(res, wd, items, tag):
    src = render(items)
    g = assemble('as', wd, src, 'g.o')
    x = assemble(_as, wd, src, 'x.o')
    if g.rc != 0 or x.rc != 0:
        raise core.HarnessError('assembly failed after filtering: %s %s' % (g.err[:200], x.err[:200]))
    files = {'in.s': src}
    L = {}
    for k in 'gx':
        try:
            L[k] = Layout(os.path.join(wd, k + '.o'))
        except elf.BadElf as e:
            if k == 'g':
                raise
            res.bad('malformed object (%s): %s' % (e, tag), files)
            return
    # labels of the source stand at the start of an item
    for i, it in enumerate(items):
        for m in re.finditer(r'^([upq]\d+):', it.text, re.M):
            for k in 'gx':
                a = L[k].addr.get('I%d' % i)
                if L[k].addr.get(m.group(1), a) != a:
                    if k == 'g':
                        raise core.HarnessError('label %s' % m.group(1))
                    res.bad('label %s is at %x, expected %x (%s)' % (m.group(1), L[k].addr[m.group(1)], a, tag), files)
                    return
                L[k].addr[m.group(1)] = a
    ch = {'g': [], 'x': []}
    for k in 'gx':
        for i in range(len(items)):
            a, b = L[k].addr.get('I%d' % i), L[k].addr.get('I%d' % (i + 1))
            sl = L[k].slice(a, b) if a is not None and b is not None else None
            if items[i].kind == 'section':
                sl = b''
            if sl is None:
                if k == 'g':
                    raise core.HarnessError('no reference slice for item %d' % i)
                res.bad('item %d %r is not in the object: %s' % (i, items[i].text, tag), files)
                return
            ch[k].append((a, sl))
    code = [i for i, it in enumerate(items) if it.kind in ('insn', 'align') and (it.kind == 'insn' or L['x'].addr['I%d' % i] >> 24 == 0)]
    dis = {k: x64asm.disasm(wd, [ch[k][i] for i in code], k + '.bin') for k in 'gx'}
    for n, i in enumerate(code):
        it = items[i]
        if it.kind == 'align':
            ins = dis['x'][n]
            if any(not re.match(r'(data16 |cs |rex\S* )*(nop|xchg %ax,%ax|xchg %eax,%eax)', t) for _, t, _ in ins):
                res.bad('code alignment is padded with %r: %r' % ([t for _, t, _ in ins], it.text), files)
                return
            continue
        out = {}
        for k in 'gx':
            slot = n * x64asm.SLOT
            if len(ch[k][i][1]) > x64asm.SLOT - 16 or sum(l for l, _, _ in dis[k][n]) != len(ch[k][i][1]):
                out[k] = ('bytes ' + ch[k][i][1].hex(), None)
                continue
            o = []
            tgt = None
            for l, t, off in dis[k][n]:
                c, tg = x64asm.canon(t, slot, ch[k][i][0])
                o.append(c)
                tgt = tg if tg is not None else tgt
            if it.sym is not None and tgt is not None:
                l, add = it.sym
                want = L[k].addr.get(l)
                tgt = 'SYM' if want is not None and (want + add) & (2 ** 64 - 1) == tgt else 'elsewhere(%x, want %s)' % (tgt, want and hex(want + add))
            out[k] = ('; '.join(o), tgt)
        res.evals += 1
        res.distinct.add(it.shape)
        if out['g'] != out['x']:
            if it.sym is not None and out['g'][1] != 'SYM':
                raise core.HarnessError('reference target not understood: %r %r' % (it.text, out['g']))
            res.bad('%r is encoded as %s, reference %s (%s)' % (it.text.strip(), out['x'], out['g'], tag), dict(files, **{'line.s': it.text + '\n'}))
            return
    for i, it in enumerate(items):
        a, xb = ch['x'][i]
        if it.kind == 'data':
            res.evals += 1
            res.distinct.add(it.shape)
            gb = ch['g'][i][1]
            if it.sym is not None:
                val = lambda k: sum((L[k].addr[l] * s for l, s in it.sym[0]), it.sym[1]) & ((1 << 8 * it.n) - 1)
                if int.from_bytes(gb, 'little') != val('g'):
                    raise core.HarnessError('reference datum not understood: %r %s want %x' % (it.text, gb.hex(), val('g')))
                ok = len(xb) == it.n and int.from_bytes(xb, 'little') == val('x')
            else:
                ok = xb == gb
                m = re.search(r'^\.(double|float) ([-+.\de]+)$', it.text, re.M)
                if not ok and m:    # the reference rounds ties upwards
                    try:
                        ok = xb == struct.pack('<d' if m.group(1) == 'double' else '<f', float(m.group(2)))
                    except OverflowError:
                        pass
            if not ok:
                res.bad('%r gives the bytes %s, reference %s (%s)' % (it.text, xb.hex()[:80], gb.hex()[:80], tag), files)
                return
        elif it.kind == 'align':
            res.evals += 1
            res.distinct.add('align %d %d' % (it.n, len(xb).bit_length()))
            end = L['x'].addr['I%d' % (i + 1)]
            if end % it.n or len(xb) >= it.n:
                res.bad('%r at %x ends at %x (%s)' % (it.text, a, end, tag), files)
                return
            sec = next(s for s in L['x'].elf.sections if s.index in L['x'].base and L['x'].base[s.index] <= a < L['x'].base[s.index] + 0x1000000)
            if sec.align % it.n:
                res.bad('%r: section %s is aligned to %d only (%s)' % (it.text, sec.name, sec.align, tag), files)
                return
            if sec.name != '.text' and any(xb):
                res.bad('%r pads with %s' % (it.text, xb.hex()), files)
                return
    # symbols
    for nm, gs in L['g'].syms.items():
        if gs.bind == 0 or nm.startswith('I'):
            continue
        xs = L['x'].syms.get(nm)
        if xs is None:
            res.bad('symbol %s is missing from the object (%s)' % (nm, tag), files)
            return
        res.evals += 1

        def where(l, s):
            return 'undefined' if s.shndx == 0 else 'common' if s.shndx == 0xfff2 else l.elf.sections[s.shndx].name if s.shndx < 0xff00 else 'abs'
        gw, xw = where(L['g'], gs), where(L['x'], xs)
        res.distinct.add('symbol %d %s' % (gs.bind, gw))
        if gs.bind != xs.bind or (gw != xw and not (gw == 'common' and xw == '.bss')) or (gs.type in (1, 2) and gs.type != xs.type and gw not in ('common', 'undefined')) or (gw == 'common' and gs.size != xs.size):
            res.bad('symbol %s: %s in %s, reference %s in %s (%s)' % (nm, xs, xw, gs, gw, tag), files)
            return
    for s in L['x'].elf.symbols:
        if (s.bind == 0) != (s.index < L['x'].elf.first_global):
            res.bad('symbol table order: %s, first global %d (%s)' % (s, L['x'].elf.first_global, tag), files)
            return


def case(seed, wd):
    r = random.Random(seed)
    res = core.CaseResult()
    g = Gen(r)
    mode = seed.rsplit('/', 2)[1]
    nlab = r.randint(3, 12)
    ulabs = ['u%d' % i for i in range(nlab)]
    labels = ulabs + ['x%d' % i for i in range(3)]
    items = []
    n = {'i': 260, 'b': 150, 'd': 160}[mode]
    glob = {u: r.choice(['', '', '.globl', '.weak' if r.random() < .3 else '.globl', '.local']) for u in ulabs}
    place = sorted(r.sample(range(n), nlab))
    sec = '.text'
    for i in range(n):
        if i in place:
            u = ulabs[place.index(i)]
            if glob[u]:
                items.append(Item('%s %s' % (glob[u], u), 'dir'))
            if r.random() < .3 and glob[u]:
                items.append(Item('.type %s, @%s' % (u, 'function' if sec == '.text' else 'object'), 'dir'))
            items.append(Item('%s:' % u, 'dir'))
        if mode == 'i':
            items.append(g.insn(labels))
        elif mode == 'b':
            k = r.random()
            if k < .55:
                u = r.choice(ulabs)
                m = r.choice(['jmp'] + ['j' + c for c in x64asm.CC])
                items.append(Item('%s %s' % (m, u), 'insn', m + ' near', sym=(u, 0)))
            elif k < .8:
                nn = r.choice([1, 2, 3, 5, 7, 10, 20, 50, 100, 118, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 250, 300, 40000 if r.random() < .1 else 60])
                items.append(Item('.zero %d' % nn, 'data', 'zero'))
            elif k < .9:
                p = r.randint(0, 6)
                items.append(Item(r.choice(['.p2align %d' % p, '.align %d' % (1 << p)]), 'align', n=1 << p))
            else:
                items.append(g.insn(labels))
        else:
            datum(r, g, items, labels, sec)
            if r.random() < .06:
                sec = r.choice(['.text', '.data', '.bss', '.rodata', 'mysec', '.text'])
                items.append(Item({'mysec': '.section mysec, "aw"', '.rodata': '.section .rodata, "a"' if False else '.section .rodata'}.get(sec, sec), 'section'))
            if sec == '.bss':
                for _ in range(r.randint(1, 4)):
                    p = r.randint(0, 6)
                    items.append(r.choice([Item('.zero %d' % r.randint(1, 300), 'data', 'bss zero'), Item('.align %d' % (1 << p), 'align', n=1 << p)]))
                sec = '.data'
                items.append(Item('.data', 'section'))
    if mode != 'd':
        items.append(Item('.data', 'section'))
    items = gas_filter(wd, items)
    items = xcc_filter(res, wd, items)
    if items is not None:
        compare(res, wd, items, seed)
    return res


def datum(r, g, items, labels, sec):
    k = r.randrange(12)
    if sec == '.text' and r.random() < .5:
        items.append(g.insn(labels))
        return
    if k < 4:
        d, n = r.choice([('.byte', 1), ('.short', 2), ('.long', 4), ('.quad', 8)])
        v = r.choice([0, 1, -1, 127, 128, -128, (1 << 8 * n - 1) - 1, (1 << 8 * n) - 1, -(1 << 8 * n - 1), r.getrandbits(8 * n)])
        items.append(Item('%s %s' % (d, g.num(v)), 'data', d))
    elif k == 4:
        def e(d):
            if d == 0 or r.random() < .3:
                return r.choice(['', '-', '+', '- ']) + str(r.randint(0, 99))
            return '%s%s%s%s%s' % (e(d - 1), r.choice(['', ' ']), r.choice('+-*/'), r.choice(['', ' ']), r.choice(['', '-']) + str(r.randint(1, 99)))
        items.append(Item('%s %s' % (r.choice(['.short', '.long', '.quad']), e(4)), 'data', 'expr'))
    elif k in (5, 6):
        l = r.choice(labels)
        a = r.choice([0, 0, 1, 8, -1, -16, 1 << 20, 1 << 33])
        if r.random() < .2 and a > 0:
            t = '%d+%s' % (a, l)
        else:
            t = l + ('' if a == 0 else r.choice(['%+d', ' %s %d' % ('+' if a > 0 else '-', abs(a))]).replace('%+d', '%+d' % a))
        items.append(Item('.quad ' + t, 'data', 'quad label', sym=([(l, 1)], a), n=8))
    elif k == 7:
        # difference of two anchors already placed in this section
        lo = max([i for i, it in enumerate(items) if it.kind == 'section'], default=-1) + 1
        if lo < len(items):
            a, b = r.randint(lo, len(items)), r.randint(lo, len(items))
            d, n = r.choice([('.long', 4), ('.quad', 8)])
            # anchors move when lines are filtered: use own labels
            i = len(items)
            items[a - 1 if a == len(items) else a].text = 'p%d:\n' % i + items[a - 1 if a == len(items) else a].text
            items[b - 1 if b == len(items) else b].text = 'q%d:\n' % i + items[b - 1 if b == len(items) else b].text
            items.append(Item('%s p%d-q%d' % (d, i, i), 'data', d + ' difference', sym=([('p%d' % i, 1), ('q%d' % i, -1)], 0), n=n, must=False))
    elif k == 8:
        s = ''.join(r.choice(['a', 'Z', ' ', '%', "'", '\\n', '\\t', '\\\\', '\\"', '\\0', '\\r', '\\b', '\\f', '\\001', '\\x41 ', '\\177', '\\377', '\\12 ', '//', '/*', ';', '#', '{', '\u00e9']) for _ in range(r.randint(0, 20)))
        items.append(Item('%s "%s"' % (r.choice(['.ascii', '.string']), s), 'data', 'string'))
    elif k == 9:
        items.append(Item('.zero %d' % r.choice([0, 1, 2, 7, 100, 1000]), 'data', 'zero'))
    elif k == 10:
        p = r.randint(0, 7)
        items.append(Item(r.choice(['.p2align %d' % p, '.align %d' % (1 << p)]), 'align', n=1 << p))
    else:
        v = r.choice(['0', '1', '-1', '1.5', '3.14159265358979', '1e10', '-2.5e-3', '1e300', '5e-324', '1e-45', '0.1', '123456789.125', '9007199254740993', '2.2250738585072014e-308', '1.7976931348623157e308',
                      '%.17g' % r.uniform(-1e3, 1e3), '%.17g' % (r.random() * 10 ** r.randint(-300, 300)), '%.9g' % (r.random() * 10 ** r.randint(-40, 38))])
        items.append(Item('%s %s' % (r.choice(['.double', '.double', '.float']), v), 'data', 'flonum'))
    if r.random() < .04:
        nm = 'c%d' % len(items)
        items.append(Item('%s.comm %s, %d%s' % (r.choice(['.local %s\n', '.globl %s\n']) % nm, nm, r.randint(1, 500), r.choice(['', ', %d' % (1 << r.randint(0, 6))])), 'dir'))


def check(ck):
    global _as
    _as = os.path.join(core.build('x64'), 'as')
    P = '%s/%d' % (ck.prop, ck.seed)
    ck.run_cases(case, ['%s/i/%d' % (P, i) for i in range(ck.n(150, 3000))])
    ck.run_cases(case, ['%s/b/%d' % (P, i) for i in range(ck.n(120, 2500))])
    ck.run_cases(case, ['%s/d/%d' % (P, i) for i in range(ck.n(120, 2500))])
