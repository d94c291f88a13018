"""Sources for the preprocessor: random macros, invocations, conditionals, includes and layout."""
import re

TOK = re.compile(r'''
   (?P<str>(?:u8|[LuU])?"(?:\\.|[^"\\\n])*")
 | (?P<chr>[LuU]?'(?:\\.|[^'\\\n])*')
 | (?P<num>\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.])*)
 | (?P<id>[A-Za-z_$][A-Za-z0-9_$]*)
 | (?P<op>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|\#\#|[^\s])
''', re.X | re.S)


def tokens(text):
    return [m.group(0) for m in TOK.finditer(text)]


def out_lines(text, main='*'):
    """(file, line, [tokens]) for every output line, following the line markers."""
    f, n = None, 0
    out = []
    for l in text.split('\n'):
        m = re.match(r'#\s+(\d+)\s+"((?:[^"\\]|\\.)*)"', l)
        if m:
            n, f = int(m.group(1)) - 1, m.group(2)
            continue
        n += 1
        if l.startswith('#pragma') or re.match(r'\s*#\s*pragma', l):
            continue
        t = tokens(l)
        if t:
            out.append((f, n, t))
    return out


class PP:
    OPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<', '>', '=', '!', '~', '?', ':', ';', '.', '[', ']', '{', '}', '->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '...']
    LITS = ['0', '1', '42', '0x1F', '017', '10u', '10UL', '7ll', '1.5', '.5f', '1e10', '3.', "'a'", "'\\n'", "'\\''", "'\"'", '"s"', '""', '"a\\"b"', '"x\\\\"', '"(" ")"', '"a,b"', '"/* no */"', '"// no"', "'('", '"\'"', 'L"w"', '"\\x41\\101"', '"#"', '"tab\\t"', '"?"', "','", "')'"]
    IDS = ['a', 'b', 'foo', 'int', 'return', 'x1', '_u', 'if', 'sizeof', 'defined_', 'define']

    def __init__(self, r):
        self.r = r
        self.lines = []
        self.macros = {}     # name -> (nparams or None, variadic)
        self.files = {}
        self.uid = 0
        self.kinds = set()
        self.marks = {}      # marker -> (file, line)
        self.lib = 0
        self.gnu = []
        self.pasted = {}     # name -> indices of the parameters used with ##

    # ---- pieces
    def lit(self):
        return self.r.choice(self.LITS)

    def tok(self, depth=0):
        r = self.r
        k = r.randrange(10)
        if k < 3:
            return r.choice(self.IDS)
        if k < 5:
            return self.lit()
        if k < 7:
            return r.choice(self.OPS)
        if k < 8 and depth < 2:
            return '(' + self.toks(depth + 1) + ')'
        return self.use(depth + 1) if self.macros and depth < 3 else r.choice(self.IDS)

    def sp(self):
        return self.r.choice([' ', ' ', ' ', '  ', '\t', ' /* c */ ', '/**/ ', ' /* \' " */ '])

    def toks(self, depth=0, n=None):
        n = self.r.choice([0, 1, 1, 2, 3, 5]) if n is None else n
        s = ''
        for _ in range(n):
            s += self.tok(depth) + self.sp()
        return s

    def arg(self, depth):
        r = self.r
        k = r.randrange(10)
        if k == 0:
            return r.choice(['', ' ', '/* empty */'])
        if k == 1:
            return '(%s, %s)' % (self.toks(depth + 1, 1), self.toks(depth + 1, 1))
        if k == 2:
            return '[' + r.choice(self.IDS) + ']'
        if k < 5:
            return r.choice(self.IDS)
        if k < 6:
            return self.lit()
        return self.toks(depth + 1, r.choice([1, 1, 2, 3]))

    def use(self, depth=0):
        r = self.r
        name = r.choice(list(self.macros))
        n, va = self.macros[name]
        if n is None:
            return name
        if r.random() < .06:
            return name + ' ' + r.choice(['+', ';', 'z', ']'])
        cnt = n + (r.choice([0, 1, 2, 3]) if va else 0)
        if va and n and cnt == n and r.random() < .5:
            pass
        pp = self.pasted.get(name, ())
        args = [r.choice(['', ' ', 'z', '9', '_k', 'A', 'B', 'foo', '1_2', ' w ']) if i in pp else self.arg(depth) for i in range(cnt)]
        if cnt == 1 and n == 1 and not args[0].strip() and r.random() < .3:
            args = ['']
        return name + r.choice(['(', '(', '(', ' (', '( ']) + r.choice([',', ', ', ' , ']).join(args) + r.choice([')', ')', ' )'])

    def body(self, name, params, va):
        r = self.r
        if r.random() < .1:
            return ''
        n = r.choice([1, 1, 2, 3, 4, 6])
        out = []
        ps = list(params or []) + ([va] if va else [])
        i = 0
        while i < n:
            i += 1
            k = r.randrange(12)
            if ps and k < 5:
                out.append(r.choice(ps))
            elif ps and k == 5:
                out.append('#' + r.choice(['', ' ']) + r.choice(ps))
                self.kinds.add('stringize')
            elif k == 6 and params is not None:
                # pastes that always give a token
                left = r.choice(['x', 'fo_', 'A_', ''])
                right = r.choice(['1', 'y', '_z', '23'])
                if params and r.random() < .7:
                    right = r.choice(params)
                    self.kinds.add('paste_param')
                    self.pasted[name].add(params.index(right))
                if not left and params:
                    left = r.choice(params)
                    self.pasted[name].add(params.index(left))
                    # the result must be one token whatever the arguments are
                    left = 'w_ ## ' + left
                c = (left or 'm') + r.choice(['##', ' ## ', ' ##', '## ']) + right
                if r.random() < .2:
                    c += ' ## ' + r.choice(['q', '9', '_'])
                out.append(c)
                self.kinds.add('paste')
            elif k == 7 and va:
                out.append(r.choice(['g(%s)' % va, '[%s]' % va]))
                self.kinds.add('vaopt')
            elif k == 8:
                out.append(name if r.random() < .3 else r.choice(self.IDS))
            elif k == 9 and self.macros:
                out.append(self.use(2))
            elif k == 10:
                out.append(r.choice(self.IDS))
            else:
                t = self.tok(2)
                out.append(t)
        s = ''
        for t in out:
            s += t + self.sp()
        if params is not None:
            # a lone # is only allowed before a parameter
            pass
        # a comment right between two tokens of a body joins them on purpose (old compilers, repository test)
        return re.sub(r'(?<=\S)/\*', ' /*', s.strip())

    def va_opt(self):
        # parameters, nested parentheses and operators in and around __VA_OPT__
        r = self.r
        def part():
            return ' '.join(r.choice(['f_', '__VA_ARGS__', 'k', ',', '(f_)', '((k), f_)', '(__VA_ARGS__)', 'f_ ## 7', 'k ## f_', '#f_', '#__VA_ARGS__', '+']) for _ in range(r.randint(0, 3)))
        opt = '__VA_OPT__(%s)' % part()
        if r.random() < .35:
            # only words around, so that the results are tokens
            opt = r.choice(['k ## __VA_OPT__(f_)', 'k##__VA_OPT__(z f_) q', '__VA_OPT__(z) ## k', '__VA_OPT__(f_ z)##k', 'k ## __VA_OPT__() ## z', 'k ## __VA_OPT__(v)'])
        return r.choice(['%s', 'p(f_ %s)', '[%s] __VA_ARGS__', '%s|' + '__VA_OPT__(f_)', '(%s) #f_']) % opt

    def gnu_va(self):
        r = self.r
        n = 'VG%d' % r.randrange(3)
        if n not in self.gnu:
            self.put('#define %s(f_, ...) %s' % (n, r.choice(['p(f_ , ## __VA_ARGS__)', 'p(f_, ##__VA_ARGS__) z', '[1, ## __VA_ARGS__] f_', '[1 __VA_OPT__(,) __VA_ARGS__]', 'f_ __VA_OPT__(k) z', self.va_opt(), self.va_opt()])))
            self.gnu.append(n)
        args = [r.choice(['a', '1', '"s"', 'x + 1', '(a, b)', '', self.mname()]) for _ in range(r.randint(1, 4))]
        if len(args) == 2 and not args[1]:
            args[1] = '1'   # a given but empty argument: whether the comma before ## goes away is not specified
        self.put('%s(%s)' % (n, ', '.join(args)))
        self.kinds.add('gnu_comma')

    def mname(self):
        return self.r.choice(['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H']) + self.r.choice(['', '', '1', '_x'])

    def define(self):
        r = self.r
        name = self.mname()
        hash_ = r.choice(['#', '#', '#', '# ', ' #', '\t# '])
        if name in self.macros:
            self.put('%sundef %s' % (hash_, name) + r.choice(['', ' ', ' /* c */', ' // c']))
            del self.macros[name]
            self.kinds.add('undef')
        if r.random() < .4:
            b = self.body(name, None, None)
            b = re.sub(r'#+', '', b)
            s = '%sdefine %s %s' % (hash_, name, b)
            self.macros[name] = (None, False)
            self.kinds.add('object')
        else:
            self.pasted[name] = set()
            n = r.choice([0, 1, 1, 2, 2, 3, 4])
            params = r.sample(['p', 'q', 'r_', 's1', 'foo', 'a'], n)
            va = None
            if r.random() < .3:
                va = r.choice(['__VA_ARGS__', '__VA_ARGS__', 'rest'])
            pl = params + ([] if va is None else ['...' if va == '__VA_ARGS__' else 'rest...'])
            b = self.body(name, params, va)
            s = '%sdefine %s(%s)%s%s' % (hash_, name, r.choice([',', ', ', ' , ']).join(pl), r.choice([' ', ' ', '\t', '']) if b[:1] not in ('(',) else ' ', b)
            self.macros[name] = (n, va is not None)
            self.kinds.add('function_va' if va else 'function')
        if r.random() < .1:
            s += ' // trailing'
        if r.random() < .1:
            s += ' /* trailing */'
        self.put(self.splice(s))

    def splice(self, s):
        r = self.r
        if r.random() < .15 and len(s) > 4:
            i = r.randrange(1, len(s))
            if s[i - 1] != '\\' and s[i - 1:i + 1] not in ('/*', '*/', '//'):
                self.kinds.add('splice')
                return s[:i] + '\\\n' + s[i:]
        return s

    def put(self, s):
        self.lines.append(re.sub(r'/(?=/\*)', '/ ', s))

    def lineno(self):
        return 1 + sum(s.count('\n') + 1 for s in self.lines)

    def mark(self, fname):
        self.uid += 1
        m = 'mark_%d_' % self.uid
        self.marks[m] = (fname, self.lineno())
        self.put(m + ' ;')

    def outside(self, s, c, to):
        """Replaces c where it is a token of its own, once."""
        out, done, pos = '', False, 0
        for m in re.finditer(r'/\*.*?\*/|//.*|(?:"(?:\\.|[^"\\\n])*")|(?:\'(?:\\.|[^\'\\\n])*\')|.', s, re.S):
            t = m.group(0)
            if t == c and not done and self.r.random() < .7:
                t, done = to, True
            out += t
        return out

    def text(self):
        r = self.r
        s = ''
        for _ in range(r.randint(1, 6)):
            s += (self.use() if self.macros and r.random() < .6 else self.tok()) + self.sp()
        if r.random() < .15:
            s = self.outside(s, ',', ',\n')
            self.kinds.add('multiline')
        if r.random() < .1:
            s = self.outside(s, '(', '\n(')
        if r.random() < .1:
            s += '// c ' + r.choice(["'", '"', '/*', 'A(', 'x'])
        elif r.random() < .05:
            s += '/* c\n more \' " \n */ after'
        if s.lstrip().startswith('#'):
            s = ';' + s
        # a line of an argument list must not look like a directive
        if re.search(r'\n\s*#', s):
            s = s.replace('\n', ' ')
        self.put(self.splice(s))

    def cond(self, depth=0):
        r = self.r
        k = r.randrange(14)
        if depth > 3 or k < 3:
            return r.choice(['0', '1', '2', '7', '10', '0x10', '010', '1u', '-1', "'a'", "'\\0'", '0xffffffffffffffff', '9223372036854775807', '1ull', '18446744073709551615u', '3L', "'\\377'", "'\\x41'"])
        if k == 3 and self.in_body:
            k = 4
        if k == 3:
            self.kinds.add('defined')
            return r.choice(['defined(%s)', 'defined %s', 'defined ( %s )', '!defined(%s)', '!defined %s']) % r.choice(list(self.macros) + ['NOPE', 'A', 'B'])
        if k == 4:
            return r.choice(['UNDEF', 'int', 'NOPE', 'x'])
        if k == 5:
            return '(' + self.cond(depth + 1) + ')'
        if k == 6:
            return r.choice(['!', '-', '~', '+', '- -', '!!']) + self.cond_atom(depth + 1)
        if k == 7:
            return '%s ? %s : %s' % (self.cond_atom(depth + 1), self.cond_atom(depth + 1), self.cond_atom(depth + 1))
        if k == 8:
            return '(%s %s %s)' % (self.cond_atom(depth + 1), r.choice(['<<', '>>']), r.choice(['0', '1', '5', '63', '31']))
        if k == 9:
            n = [m for m in self.cmacros]
            if n:
                m, v = r.choice(n)
                return m if v is None else '%s(%s)' % (m, self.cond(depth + 2))
        if k == 10:
            return '%s %s %s' % (self.cond_atom(depth + 1), r.choice(['/', '%']), r.choice(['1', '3', '7', '10u', '-2', '0x7f']))
        op = r.choice(['+', '-', '*', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '&&', '||'])
        if op in ('&&', '||') and r.random() < .3:
            zero = '0' if op == '&&' else '1'
            return '%s %s (%s / 0)' % (zero, op, self.cond_atom(depth + 1))
        return r.choice(['%s %s %s', '%s%s%s']) % (self.cond_atom(depth + 1), op if op not in '+-' else ' ' + op + ' ', self.cond_atom(depth + 1))

    def cond_atom(self, depth):
        c = self.cond(depth)
        return c if self.r.random() < .35 else '(' + c + ')'

    cmacros = ()
    in_body = False

    GARBAGE = ['"/* no comment"', '"a // b" x /* c\n#else\n*/', "'/*'", '"\\"/*" y', "'\\'' /* c\n#endif\n*/ z", "'\"' /* d\n#elif 1 */", '"\\\\" /* e\n#endif */ "/*"', 'x = \'a\' + "\'" /* f\n#endif */', 'this is \'not closed', '#define A(', '# unknown thing', '"unclosed', 'A(1, 2', '#include "missing.h"', '#error no', '@ ` $', '\\ x', '# 1 "f.c" 1', '#line x', '#define', '#undef', '# 12abc', "it's", '/* comment with #endif\n#else\n */', '// #endif', '"#endif"', '#pragma whatever', '#warning w', "'", '#elifx', 'x #endif', "#define Q 'a"]

    def garbage(self):
        s = self.r.choice(self.GARBAGE)
        self.kinds.add('skipped')
        return s

    def group(self, depth, skipped, fname):
        r = self.r
        for _ in range(r.choice([0, 1, 2, 3])):
            if skipped:
                if r.random() < .2 and depth < 3:
                    self.put(r.choice(['#if 1', '#ifdef A', '#ifndef A', '#if garbage ( 1 +', '#if', '#ifdef', '#if 1 / 0', "#if 'abc"]))
                    self.group(depth + 1, True, fname)
                    if r.random() < .4:
                        self.put(r.choice(['#elif 1', '#elif', '#elif (((', '#else']))
                        self.group(depth + 1, True, fname)
                    self.put(r.choice(['#endif', '# endif', '#endif /* x */', '#endif // x']))
                else:
                    self.put(self.garbage())
            else:
                self.item(depth + 1, fname)

    def conditional(self, depth, fname, evalcond):
        """evalcond: text -> truth, by the reference."""
        r = self.r
        taken = False
        saved = None
        for i in range(r.choice([1, 1, 2, 3])):
            if i == 0:
                k = r.randrange(4)
                if k == 0:
                    n = r.choice(list(self.macros) + ['NOPE', 'A', 'B1'])
                    t = n in self.macros
                    self.put(r.choice(['#ifdef %s', '# ifdef %s', '#ifdef %s // c', '#ifdef %s /* c */']) % n)
                elif k == 1:
                    n = r.choice(list(self.macros) + ['NOPE', 'A', 'B1'])
                    t = n not in self.macros
                    self.put(r.choice(['#ifndef %s', '#\tifndef %s']) % n)
                else:
                    c = self.cond()
                    t = evalcond(c)
                    self.put(self.splice(r.choice(['#if %s', '# if %s', '#if %s // c', '#if %s /* c */', '#if(%s)']) % c))
            else:
                c = self.cond()
                if taken:
                    t = False
                    if r.random() < .4:
                        c = r.choice(['1', '0', c, c])
                else:
                    t = evalcond(c)
                self.put('#elif ' + c)
            self.group(depth, not (t and not taken), fname)
            taken = taken or t
        if r.random() < .5:
            self.put(r.choice(['#else', '# else', '#else /* c */', '#else // c']))
            self.group(depth, taken, fname)
        self.put(r.choice(['#endif', '# endif', '#endif /* c */', '#endif // c']))
        self.kinds.add('cond')

    def item(self, depth, fname):
        r = self.r
        k = r.randrange(20)
        if k < 5:
            self.define()
        elif k < 11:
            self.text()
        elif k < 13 and depth < 3:
            self.conditional(depth, fname, self.evalcond)
        elif k == 13:
            self.mark(fname)
        elif k == 14:
            self.put(r.choice(['#', ' # ', '# /* c */', '/* c */ #', '', '   ', '/* c */', '// c', '\\\n', '/* a\n\n b */']))
        elif k == 15:
            self.put(r.choice(['__LINE__', 'a __LINE__ b', 'x(__LINE__,\n__LINE__)' if False else '[__LINE__]', '__FILE__']))
            self.kinds.add('line')
        elif k == 16 and depth < 3:
            self.include(fname)
        elif k == 19 and r.random() < .5:
            self.gnu_va()
        elif k == 17:
            n = r.choice(['A', 'B', 'C', 'D'])
            self.put('#undef ' + n)
            self.macros.pop(n, None)
        elif k == 18 and r.random() < .5:
            n = r.choice([1, 100, 7, 2000000])
            self.put('#line %d' % n)
            self.put('after __LINE__')
            self.moved = True
        else:
            self.text()

    moved = False

    def include(self, fname):
        r = self.r
        self.kinds.add('include')
        k = len(self.files)
        if k >= 8:
            return
        d = r.choice(['', 'inc1/', 'inc2/', 'inc1/sub/'])
        name = 'h%d.h' % k
        path = d + name
        sub = PP(r)
        sub.macros = self.macros
        sub.files = self.files
        sub.pasted = self.pasted
        sub.gnu = self.gnu
        sub.cmacros = self.cmacros
        sub.uid = 1000 * (k + 1)
        sub.evalcond = self.evalcond
        guard = r.randrange(3)
        self.files[path] = ''
        if guard == 1:
            sub.put('#pragma once')
        if guard == 2:
            sub.put('#ifndef GUARD%d\n#define GUARD%d' % (k, k))
        sub.mark(path)
        for _ in range(r.randint(1, 5)):
            sub.item(2, path)
        sub.mark(path)
        if guard == 2:
            sub.put('#endif')
        self.files[path] = '\n'.join(sub.lines) + r.choice(['\n', '\n', ''])
        self.marks.update(sub.marks)
        self.kinds |= sub.kinds
        if sub.moved:
            for m, (f, l) in list(self.marks.items()):
                if f == path:
                    del self.marks[m]
        rel = path
        here = fname.rsplit('/', 1)[0] + '/' if '/' in fname else ''
        if here and path.startswith(here):
            rel = path[len(here):]
        elif here:
            rel = '../' * here.count('/') + path
        form = r.randrange(4)
        if form == 0:
            inc = '"%s"' % rel
        elif form == 1 and d in ('inc1/', 'inc2/'):
            inc = r.choice(['<%s>', '"%s"']) % name
        elif form == 2:
            mn = 'INC%d' % k
            self.put('#define %s "%s"' % (mn, rel))
            inc = mn
            self.kinds.add('include_macro')
        else:
            inc = '"%s"' % rel
        for _ in range(1 if guard == 0 else 2):
            self.put(r.choice(['#include %s', '# include %s', '#include %s // c', '#include %s /* c */']) % inc)

    def program(self, evalcond):
        r = self.r
        self.evalcond = evalcond
        cm = []
        self.in_body = True
        for i in range(r.randint(0, 4)):
            if r.random() < .5:
                n = 'CM%d' % i
                self.put('#define %s %s' % (n, self.cond(2)))
                cm.append((n, None))
            else:
                n = 'CF%d' % i
                self.put('#define %s(x) (%s)' % (n, r.choice(['x + 1', 'x * 3', '(x) == 0', 'x', '!(x)', 'x && 1'])))
                cm.append((n, 1))
            self.cmacros = tuple(cm)
        self.in_body = False
        self.head = list(self.lines)
        for _ in range(r.randint(6, 30)):
            self.item(0, 't.c')
        self.mark('t.c')
        self.files['t.c'] = '\n'.join(self.lines) + '\n'
        if self.moved:
            for m, (f, l) in list(self.marks.items()):
                if f == 't.c':
                    del self.marks[m]
        return self.files
