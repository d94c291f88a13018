"""Inputs for the robustness checks: fragments of real sources and generated programs, mutated by tokens and bytes."""
import json
import os
import re
from . import core

TOK = re.compile(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|[A-Za-z_]\w*|\.?\d[\w.]*|<<=|>>=|\.\.\.|[-+*/%&|^<>=!]=|&&|\|\||->|\+\+|--|<<|>>|##|//[^\n]*|/\*.*?\*/|\s+|.', re.S)

KEYWORDS = ('auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch '
            'typedef union unsigned void volatile while _Bool _Noreturn __attribute__ _Alignof __alignof__ typeof __asm __builtin_va_start __builtin_va_arg va_list __func__ __builtin_type_kind asm').split()
PUNCT = list('{}()[];,.<>=!+-*/%&|^~?:#') + ['->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '+=', '-=', '<<=', '...', '##']
NUMS = ['0', '(-0x7fffffffffffffffL - 1)', '/ -1', '% -1', '1', '-1', '2', '255', '65536', '0x7fffffff', '0x80000000', '0xffffffff', '4294967296', '9223372036854775807', '0x8000000000000000', '0xffffffffffffffff', '18446744073709551616',
        '1e308', '1e999', '0.0', '1.5f', '.5', '1e', '0x', '0b', '08', '1u', '1ull', "'a'", "''", "'\\x'", "'\\777'", '"s"', '""', 'L"w"', '"\\', '100000000', '-2147483648', '63', '64', '128']
CFRAG = ['int x[', 'struct S {', 'struct S { int a; } s', 'union {', 'enum { A, B = ', '(int)', '(char*)', '(struct S){', 'sizeof(', 'for (;;)', 'do {', '} while (', 'switch (', 'case 1 ... 5:', 'case 3:',
         'default:', 'goto l;', 'l:', 'return', 'break;', 'continue;', 'typedef', 'int f(int, ...)', '*p', '&x', 'x.a', 'p->a', '.a = ', '[3] = ', 'if (', 'else', 'void', 'int (*fp)(int)', '= {', '__attribute__((weak))',
         'static', 'extern', 'f(', ': 3', 'const', 'inline', 'int a[] =', '({', '})', 'int a[n]', 'char s[] = "abc"', '&&l', 'goto *', '__func__', 'va_arg(', 'x ? y :', ', ...', '[static 3]', 'int;', 'struct S;', 'struct {};',
         'unsigned', 'long long', 'double', 'float', 'typeof(', '_Generic(', 'alignof(', 'x = (', '!', '- -', 'NULL', '0[p]', 'a[0][0]', 'if (0)', 'while (1)', 'int x : 40;', 'char c : 1;', 'asm("nop")', 'asm("" : "=r"(x))',
         '__asm("nop");', '__asm("mov $1, %%eax" : "=r"(x));', '__asm("%%%%" : "=r"(x));', '__asm("%" : "=r"(x));', '__asm("%', '__asm("%%" : "=a"(', '__asm("" :', '__asm(x)', '__asm("" "%%" : "=r"(a[0]))']
PPFRAG = ['#define M(a, ...) ', '#define M ', '#define M(x) #x', '#define M(x) x##', '#undef M', '#if ', '#ifdef M', '#ifndef', '#else', '#elif 1', '#elif', '#endif', '#include "', '#include <x', '#include M', '#error x', '#line 3 "f"', '#line', '#pragma once',
          '#pragma', '#', '# 5 "x"', '##', 'M(', 'M()', 'M(1, (2', '__VA_ARGS__', '__LINE__', '__FILE__', '__COUNTER__', 'defined(M)', 'defined', '/*', '*/', '//', '\\\n', '"', "'", '#define defined', '#define __VA_ARGS__', '1/0', '?', ':', '#include __FILE__', '#if 1', '#if 0', '__VA_OPT__(', '#define F(', '#define F(a,', '#define F(a a)', '#define F(...', '#if (', '#if 1 +', "'\\"]
AFRAG = ['.globl', '.section', '.section .x, "awx', '.p2align 100', '.align -1', '.align 3', '.zero -1', '.zero 99999999999', '.byte', '.quad', '.long x-y', '.ascii "', '.string "\\', '.comm x', '.comm x, 4, 3', '.text', '.data', '.bss', '.file', '.type x, @', '.weak', '.local',
         'mov', 'mov %rax', 'mov %rax,', 'mov (%rax', 'mov (%rax,%rbx,3), %rcx', '8(', '%', '%zzz', '$', '$$', '*%rax', '*(', 'jmp', 'jmp *', 'call', 'x:', '1:', 'x', '(', ')', ',', ':', '.', '%rip)', '@', '@GOTPCREL', '//', '/*', ';', '#', '%xmm0', '%al', '%r8d', 'lea', 'push', 'cvtsi2sd',
         '.float', '.double 1e999', '.double x', '.quad 1/0', '.quad 1%', '.quad (1', '-x', 'x+', 'x@', '"x"', '.section "', '0x', '08', '.globl 1', 'lock', 'rep', 'rep movsb']


def corpus():
    """Top-level pieces of C sources (a snapshot, so that the inputs do not depend on the tree under test)."""
    return json.load(open(os.path.join(core.VERIF, 'data', 'c_corpus.json')))


def tokens(s):
    return TOK.findall(s)


def mutate(r, text, frags, pool):
    """Token-level mutations, sometimes byte-level ones."""
    t = tokens(text)
    n = r.choice([1, 1, 1, 2, 3, 5, 9])
    for _ in range(n):
        if not t:
            t = [' ']
        i = r.randrange(len(t))
        k = r.randrange(12)
        if k == 0:
            del t[i]
        elif k == 1:
            j = min(len(t), i + r.randint(1, 12))
            del t[i:j]
        elif k == 2:
            j = min(len(t), i + r.randint(1, 12))
            t[i:i] = t[i:j] * r.choice([1, 1, 2, 5])
        elif k == 3:
            j = r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k in (4, 5):
            t[i] = r.choice(r.choice([KEYWORDS, PUNCT, NUMS]))
        elif k == 6:
            t.insert(i, ' ' + r.choice(r.choice([KEYWORDS, PUNCT, NUMS])) + ' ')
        elif k in (7, 8):
            t.insert(i, ' ' + r.choice(frags) + ' ')
        elif k == 9 and pool:
            o = tokens(r.choice(pool))
            a = r.randrange(len(o)) if o else 0
            t[i:i + r.randint(0, 8)] = o[a:a + r.randint(1, 25)]
        elif k == 10:
            t = t[:i] if r.random() < .3 else t
        else:
            # the same identifier elsewhere
            ids = [x for x in t if re.match(r'[A-Za-z_]', x)]
            if ids:
                t[i] = r.choice(ids)
    b = ''.join(t).encode('latin-1', 'replace')
    if r.random() < .06:
        b = bytes_mut(r, b)
    return b


def bytes_mut(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 4, 16])):
        if not b:
            b = bytearray(b'x')
        i = r.randrange(len(b))
        k = r.randrange(6)
        if k == 0:
            b[i] = r.randrange(256)
        elif k == 1:
            b[i] ^= 1 << r.randrange(8)
        elif k == 2:
            del b[i:i + r.choice([1, 1, 2, 8, 100])]
        elif k == 3:
            b[i:i] = bytes(r.randrange(256) for _ in range(r.choice([1, 1, 4, 20])))
        elif k == 4:
            b = b[:i] if r.random() < .3 else b
        else:
            b[i] = r.choice([0, 255, 0x7f, 0x80, 10, 13, 92, 34, 39])
    return bytes(b)


def binary_mut(r, b):
    """Object files: header fields, words and truncation."""
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(b))
        k = r.randrange(8)
        if k < 3:
            w = r.choice([1, 2, 4, 8])
            i -= i % w
            v = r.choice([0, 1, 2, 3, 0x7f, 0xff, 0xffff, 0xfff1, 0xfff2, 0x7fffffff, 0xffffffff, 1 << 63, (1 << 64) - 1, len(b), len(b) - 1, len(b) + 1, r.getrandbits(64), r.randrange(100)])
            b[i:i + w] = (v & ((1 << 8 * w) - 1)).to_bytes(w, 'little')
        elif k == 3:
            b = b[:i + 1]
        elif k == 4:
            b[i] ^= 1 << r.randrange(8)
        elif k == 5:
            i = r.randrange(min(64, len(b)))
            b[i] = r.choice([0, 1, 0xff, r.randrange(256)])
        elif k == 6:
            j = r.randrange(len(b))
            n = r.choice([1, 8, 16, 24, 64])
            b[i:i + n] = b[j:j + n]
        else:
            b[i:i] = bytes(r.choice([1, 8, 64]))
    return bytes(b)
