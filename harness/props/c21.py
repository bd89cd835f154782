"""The supplied headers and the preprocessor conform."""
import json, os, re
from .common import *
import lib, engine
from lib import ToolError
RULE = ('every character function on every value from -1 to 255; the value, type and parenthesisation of every macro of the headers and the size, '
        'signedness and range of every type, in expressions, #if, case labels, array sizes and constants; orders and repetitions of includes; random '
        'programs of macros (object-like, function-like, variadic, #, ##, rescanning, self reference, redefinition), conditional groups '
        '(with every operator), and header files of their own with guards, macro parameters and nesting. The preprocessed text is that of spec/Cpp.tla, and its '
        'behaviour that of spec/CSem.tla; what Cpp.tla rejects the compiler has to reject. Non-trivial: at least 50 machine steps, distinct source; for rejections, a distinct source.')
TECHNIQUE = 'TLA+/TLC: a specification of the preprocessor (spec/Cpp.tla) on the bytes of the sources gives the programs whose compiled behaviours are validated against spec/CSem.tla'
INC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'include')

def b(s):
    return list(s.encode('utf-8'))

def preprocess_all(ctx, items):
    """items: [(text, files)] -> [(verdict, text)] of spec/Cpp.tla"""
    std = [dict(name=b(n), text=b(open(os.path.join(INC, n)).read())) for n in sorted(os.listdir(INC))]
    f = os.path.join(ctx.scratch, 'cpp.json')
    res = {}
    for lo in range(0, len(items), 400):
        part = items[lo:lo + 400]
        json.dump(dict(items=[[dict(name=b('main.c'), text=b(t))] + [dict(name=b(n), text=b(x)) for n, x in fs.items()]
                              for t, fs in part], std=std), open(f, 'w'))
        out, gen, dist = lib.tlc('Cpp.tla', 'Cpp.cfg', {'CPP_ITEMS': f})
        ctx.cov['states'] += dist
        ctx.cov['transitions'] += gen
        for a, why, bs in re.findall(r'<<\s*"CPP",\s*(\d+),\s*"([^"]*)",\s*<<([\d,\s]*)>>\s*>>', out):
            res[lo + int(a) - 1] = (why, bytes(int(x) for x in bs.split(',') if x.strip()).decode('utf-8'))
    if len(res) != len(items):
        raise ToolError('%d of %d programs preprocessed' % (len(res), len(items)))
    return [res[i] for i in range(len(items))]

# ------------------------------------------------------------------ characters
CLS = ['isalnum', 'isalpha', 'iscntrl', 'isdigit', 'isxdigit', 'isgraph', 'ispunct', 'isprint', 'islower', 'isupper', 'isspace']
def ctype_all(R):
    inc = ['#include <stdio.h>', '#include <ctype.h>']
    R.shuffle(inc)
    cls = CLS[:]
    R.shuffle(cls)
    body = ''
    for fs in chunks(cls, 4):
        body += '    for (c = -1; c <= 255; c++) printf("%s ", %s);\n' % ('%d' * len(fs), ', '.join(R.choice(['!!%s(c)', '%s(c) ? 1 : 0', '%s(c) != 0', '!%s(c)']) % f for f in fs))
    return '%s\nint main(void)\n{\n    int c;\n%s    for (c = -1; c <= 255; c++) printf("%%d %%d ", tolower(c), toupper(c));\n    return 0;\n}\n' % ('\n'.join(inc), body)

def ctype_use(R):
    """in conditions, with arguments of other types, on strings"""
    f, g = R.sample(CLS, 2)
    t = R.choice(['unsigned char', 'short', 'long', 'unsigned int', 'unsigned long'])
    s = ''.join(R.choice('aZ09 _-~@[`{/:Gg') for _ in range(10))
    return '''#include <ctype.h>
#include <stdio.h>
int count(char *s)
{
    int n = 0;
    while (*s) {
        if (%s(*s) && !%s(*s)) n++;
        else if (%s(*s)) n += 100;
        s++;
    }
    return n;
}
int hash(%s c)
{
    return (%s(c) != 0) * 2 + (%s(c) == 0);
}
int main(void)
{
    char s[] = "%s";
    int i;
    %s c;
    for (c = %d; c < %d; c++) printf("%%d", hash(c));
    printf("%%d ", count(s));
    for (i = 0; s[i]; i++) s[i] = %s(s[i]);
    printf("%%s", s);
    return 0;
}
''' % (f, g, g, t, f, g, s, t, R.choice([0, 30, 60]), R.choice([90, 128]), R.choice(['toupper', 'tolower']))

# ------------------------------------------------------------------ macros and types of the headers
LIM = 'CHAR_BIT SCHAR_MIN SCHAR_MAX UCHAR_MAX CHAR_MIN CHAR_MAX SHRT_MIN SHRT_MAX USHRT_MAX INT_MIN INT_MAX UINT_MAX LONG_MIN LONG_MAX ULONG_MAX LLONG_MIN LLONG_MAX ULLONG_MAX'.split()
OTHERM = {'stdlib.h': ['EXIT_SUCCESS', 'EXIT_FAILURE'], 'stdbool.h': ['true', 'false', '__bool_true_false_are_defined']}
UNS = {'UINT_MAX', 'ULONG_MAX', 'ULLONG_MAX'}
def limits_program(R):
    ms = R.sample(LIM, 6)
    inc = ['#include <limits.h>', '#include <stdio.h>']
    if R.random() < .4:
        h = R.choice(list(OTHERM)); inc.append('#include <%s>' % h); ms += OTHERM[h]
    R.shuffle(inc)
    lines = []
    for m in ms:
        small = m[:4] in ('CHAR', 'SCHA', 'UCHA', 'SHRT', 'USHR', 'EXIT', 'true', 'fals') 
        es = ['%s', '!%s', '~%s', '%s > -1', '%s < 0', '%s / 2', '%s %% 1000', '%s & 255', '%s >> 3', '%s == %s', 'x - %s / 2', '%s ? 1 : 2', '(long)%s', '(char)%s', '1 - %s / 3 * 2', 'sizeof %s * 2', '%s | 1']
        if small or m in UNS:
            es += ['%s * 2', '%s + 1', '%s - 1', '2 * %s', '-%s', '%s * %s' if m in UNS or m[0] in 'CES' else '3 - %s', 'x * %s' if small else 'x + %s']
        if small:
            es += ['1 << %s %% 8' if m == 'CHAR_BIT' else '%s << 1' if 'MIN' not in m and m != 'false' else '%s ^ 5']
        for e in R.sample(es, 5):
            e = e.replace('%s', m).replace('%%', '%')
            lines.append('printf("%%lu %%d;", (unsigned long)(%s), (int)sizeof(%s));' % (e, e))
    R.shuffle(lines)
    fs = chunks(lines, 5)
    pre = ''.join('void t%d(void)\n{\n    long x = %d;\n    %s\n}\n' % (i, R.randint(-9, 9), '\n    '.join(f)) for i, f in enumerate(fs))
    m = R.choice(ms[:6])
    k = R.randint(0, 6)
    e = R.choice(['%s > %d', '%s == %d', '-1 < %s', '%s / 3 > 5', '(%s & 15) == 15', '(%s | 1) != %s', '!%s', '%s %% 2', '%s >> 4 < %d', '%s - 1 < %s', '~%s > 0'])
    e = e.replace('%s', m).replace('%d', str(R.choice([0, 8, 127, 255, 32767, 65535, 4294967295]))).replace('%%', '%')
    conds = '#if %s\n    printf("yes");\n#else\n    printf("no");\n#endif\n' % e
    extra = R.choice(['static long g = %s;' % R.choice(ms[:6]), 'enum { E = %s };' % R.choice([x for x in LIM if x[:4] in ('CHAR', 'SCHA', 'UCHA', 'SHRT', 'INT_')]),
                      'char a[CHAR_BIT];', 'char a[SCHAR_MAX];'])
    use = {'s': '    printf("%ld ", g);', 'e': '    printf("%d ", E);', 'c': '    printf("%d ", (int)sizeof(a));'}[extra[0]]
    sw = '    switch (x) {\n        case CHAR_MIN: printf("a");\n        case INT_MAX: printf("b"); break;\n        case SHRT_MIN: printf("c"); break;\n        default: printf("d");\n    }\n' if R.random() < .4 else ''
    return '\n'.join(inc) + '\n' + extra + '\n' + pre + 'int main(void)\n{\n    int x = %s;\n%s\n' % (R.choice(['CHAR_MIN', 'INT_MAX', 'SHRT_MIN', '5']), use) + sw + conds + ''.join('    t%d();\n' % i for i in range(len(fs))) + '    return %s;\n}\n' % R.choice(['0', 'CHAR_BIT', 'SCHAR_MAX'])

STDINT = ['%s%s%d_t' % (u, m, n) for u in ('int', 'uint') for m in ('', '_fast', '_least') for n in (8, 16, 32, 64)] + ['intmax_t', 'uintmax_t', 'intptr_t', 'uintptr_t']
DEFT = ['size_t', 'ptrdiff_t', 'wchar_t']
def types_program(R):
    ts = [(t, 'stdint.h') for t in R.sample(STDINT, 4)] + [(R.choice(DEFT), 'stddef.h')]
    if R.random() < .5:
        ts.append(('size_t', 'string.h'))
    inc = ['#include <%s>' % h for h in {h for _, h in ts}] + ['#include <stdio.h>']
    inc += R.sample(inc, R.randint(0, 2))
    R.shuffle(inc)
    ts = list(dict.fromkeys(t for t, _ in ts))
    pre = ''
    for i, t in enumerate(ts):
        pre += '''void t%d(void)
{
    %s x = -1, a[3] = {1, 2, 3};
    struct { char c; %s m; } s = {1, %d};
    %s *p = &a[1];
    printf("%%d %%d %%d %%d;", (int)sizeof(%s), (%s)-1 > 0, (int)sizeof(s), (int)sizeof a);
    x = x / 2;
    printf("%%lu %%d;", (unsigned long)x, x > -1);
    s.m = s.m * 3;
    *p = *p - 3;
    printf("%%ld %%ld %%ld;", (long)s.m, (long)a[1], (long)(p + 1 - a));
    x = %d;
    printf("%%lu;", (unsigned long)x);
    printf("%%d", (int)sizeof(x + 1));
}
%s f%d(%s q)
{
    return q + 1;
}
''' % (i, t, t, R.randint(-300, 40000), t, t, t, R.choice([255, 256, 65535, -129, 32768, -1, 4294967295, -2147483649]), t, i, t)
    return '\n'.join(inc) + '\n' + pre + 'int main(void)\n{\n' + ''.join('    t%d();\n    printf("%%lu;", (unsigned long)f%d(%s));\n' % (i, i, R.choice(['127', '-2', '255', '65535', '2147483646'])) for i in range(len(ts))) + '    return 0;\n}\n'

USES = {
    'stdio.h': ['printf("io ");'], 'ctype.h': ['printf("%d ", !!isalpha((x & 31) + 60));', 'printf("%d ", toupper(97 + (x & 15)));'],
    'limits.h': ['printf("%d ", CHAR_BIT);', 'printf("%lu ", (unsigned long)UINT_MAX);', 'x += SHRT_MAX;'],
    'stdint.h': ['{ uint8_t q = 300; printf("%d ", q); }', '{ int64_t q = -1; printf("%ld ", q); }', 'printf("%d ", (int)sizeof(intptr_t));'],
    'stddef.h': ['{ ptrdiff_t q = &x - &x; printf("%d ", q); }', '{ int *q = NULL; printf("%d ", q == NULL); }', 'printf("%d ", (int)sizeof(wchar_t));'],
    'stdlib.h': ['printf("%ld ", strtol("12abc", NULL, 10));', 'printf("%d ", EXIT_FAILURE);', 'printf("%lu ", strtoul("ff", NULL, 16));'],
    'string.h': ['printf("%d ", (int)strlen("four"));', '{ size_t q = 3; printf("%u ", q - 4); }', 'printf("%d ", strstr("abc", "x") == NULL);'],
    'stdbool.h': ['printf("%d ", true);', 'x = x && !false;'],
}
SP = ['#include <%s>', '#include<%s>', ' # include <%s>', '#include "%s"', '#include  <%s>  // c', '#\tinclude\t<%s>', '/**/ #include <%s> /* c */', '#inc\\\nlude <%s>', '# /* x */ include /* y */ <%s>']
def includes_program(R):
    hs = R.sample(list(USES), R.randint(2, len(USES)))
    if 'stdio.h' not in hs:
        hs.append('stdio.h')
    seq = hs + [R.choice(hs) for _ in range(R.randint(0, 3))]
    R.shuffle(seq)
    uses = [u for h in hs for u in R.sample(USES[h], min(2, len(USES[h])))]
    R.shuffle(uses)
    body = '    int x = %d;\n' % R.randint(1, 9) + ''.join('    %s\n' % u for u in uses)
    lines = [R.choice(SP) % h for h in seq]
    own = {}
    for j in range(R.randint(0, 2)):       # a header of the program that includes others
        k = R.randint(1, 3)
        n = R.choice(['own%d.h', 'my_%d.h', 'x-%d.h', 'Header%d.inc']) % j
        t = '\n'.join(lines[:k]) + '\n#define OWN%d %d\n' % (j, R.randint(1, 99))
        g = R.random()
        if g < .6:
            t = '#ifndef H%d\n#define H%d\n' % (j, j) + t + '#endif' + R.choice(['\n', '', ' // H\n'])
        own[n] = t
        lines = lines[k:] + ['#include "%s"' % n]
        body += '    printf("%%d ", OWN%d);\n' % j
        if g < .6 and R.random() < .5:
            lines.append('#include "%s"' % n)
    R.shuffle(lines)
    mid = R.choice(['int before(void) { return 3; }\n', 'typedef int T;\n', '', '#define M 4\n'])
    cut = R.randint(0, len(lines))
    if any('stdio' in l for l in lines[cut:]) or True:
        src = '\n'.join(lines[:cut]) + '\n' + mid + '\n'.join(lines[cut:]) + '\n'
    return src + 'int main(void)\n{\n' + body + '    return 0;\n}\n', own

# ------------------------------------------------------------------ macros
class Mac:
    def __init__(self, R):
        self.R = R
        self.defs = []          # (name, kind)
        self.n = 0
        self.lines = []
        self.ov, self.fv = [], []
    def name(self, p='M'):
        self.n += 1
        return '%s%d' % (p, self.n)
    def splice(self, s):
        if self.R.random() < .15:
            ps = [i for i in range(8, len(s)) if s[i] == ' ' and s.count('"', 0, i) % 2 == 0]
            if ps:
                i = self.R.choice(ps)
                s = s[:i] + self.R.choice([' \\\n ', ' \\\n', ' /* c */ ', ' /* \n */ ']) + s[i + 1:]
        return s
    def d(self, s):
        h = self.R.choice(['#define ', '#define ', '# define ', ' #define ', '#define  '])
        self.lines.append(self.splice(h + s))
    def atom(self, ps=()):
        R = self.R
        c = [str(R.randint(0, 20)), R.choice(['x', 'y', 'x1', 'x2', 'v12'])]
        if ps:
            c += [R.choice(ps)] * 4
        if self.ov:
            c += [R.choice(self.ov)] * 3
        if self.fv:
            c += [self.call(ps)] * 2
        return R.choice(c)
    def call(self, ps=(), d=0):
        n, k = self.R.choice(self.fv)
        return n + self.R.choice(['', '', ' ']) + '(' + ', '.join(self.arg(ps, d) for _ in range(k)) + ')'
    def arg(self, ps=(), d=0):
        R = self.R
        r = R.random()
        if r < .5 or d > 1:
            return self.R.choice(['x', 'y', '3', '7', 'x1'] + list(ps) + self.ov[-3:])
        if r < .7:
            return '%s %s %s' % (self.arg(ps, d + 1), R.choice('+-*'), self.arg(ps, d + 1))
        if r < .85:
            return '(%s, %s)' % (self.arg(ps, d + 1), self.arg(ps, d + 1))
        if self.fv:
            return self.call(ps, d + 1)
        return '-1'
    def expr(self, ps=(), paren=None):
        R = self.R
        n = R.randint(1, 3)
        s = self.atom(ps)
        for _ in range(n - 1):
            s += R.choice([' + ', ' - ', ' * ', '-', '+', ' & ', ' | ', ' < ', ' == ', ' ^ ']) + self.atom(ps)
        p = R.random() < .5 if paren is None else paren
        return '(%s)' % s if p else s
    def obj(self):
        n = self.name('O')
        self.d('%s %s' % (n, self.expr()))
        self.ov.append(n)
    def fun(self):
        n = self.name('F')
        k = self.R.randint(0, 3)
        ps = ['a', 'b', 'c'][:k]
        if self.R.random() < .2:
            ps = ['x', 'y', 'z'][:k]          # shadows the variables
        e = self.expr(ps)
        self.d('%s(%s) %s' % (n, self.R.choice([', ', ',']).join(ps), e))
        self.fv.append((n, k))

PRE = '''int x = 5, y = 3, x1 = 11, x2 = 13, v12 = 17, foo = 2, bar = 4;
int id(int n) { return n; }
'''
def macros_program(R):
    m = Mac(R)
    body = []
    for _ in range(R.randint(3, 8)):
        R.choice([m.obj, m.fun, m.fun])()
    pr = lambda e: body.append('printf("%%d ", %s);' % e)
    for _ in range(R.randint(3, 6)):
        pr(m.expr((), False))
    for _ in range(R.randint(3, 7)):
        k = R.randint(0, 17)
        n = m.name('Z')
        if k == 0:
            m.d('%s(a) #a' % n)
            body.append('printf("%%s|", %s(%s));' % (n, R.choice(['x + 1', '  x  +   y ', '"s\\n"', "'\\\"'", '(1, 2)', 'foo', '', 'a "b" c', "'a'", '1 /* c */ 2', '"a\\\\"', n, 'x+y', '- 1', '->', '@' if False else '<<='])))
        elif k == 1:
            m.d('%s_(a) #a' % n); m.d('%s(a) %s_(a)' % (n, n))
            v = m.name('V'); m.d('%s %s' % (v, R.choice(['42', 'foo', '"str"', '-', 'x1', ''])))
            body.append('printf("%%s %%s|", %s(%s), %s_(%s));' % (n, v, n, v))
        elif k == 2:
            m.d('%s(a, b) a##b' % n if R.random() < .5 else '%s(a, b) a ## b' % n)
            pr('%s(%s)' % (n, R.choice(['x, 1', 'x,2', 'v, 12', '1, 2', 'fo, o', ', 7', '8, ', 'v1, 2', '%s(x, 1), ' % n if False else 'ba,r'])))
        elif k == 3:
            m.d('%s(op) x op##op y' % n)
            pr('(%s(%s))' % (n, R.choice(['&', '|', '<', '>', '=']))) if True else None
        elif k == 4:
            m.d('%s(f, ...) printf(f, __VA_ARGS__)' % n)
            body.append(R.choice(['%s("%%d %%d ", x, %s);' % (n, m.atom()), '%s("%%d ", id((1, 2)));' % n if False else '%s("%%d ", id(4));' % n]))
        elif k == 5:
            m.d('%s(...) id(__VA_ARGS__) + sizeof(#__VA_ARGS__)' % n)
            body.append('printf("%%d ", (int)(%s(%s)));' % (n, R.choice(['3', 'x +  y', '(x, y)'])))
        elif k == 6:
            m.d('foo (%s + foo)' % R.choice(['1', 'bar', 'x']))
            if R.random() < .5:
                m.d('bar %s + bar' % R.choice(['foo', '2 * foo']))
            pr('foo * 2'); pr('bar - foo')
        elif k == 7:
            m.d('%s(t, v) do { t q = v; printf("%%d ", (int)(q * 2)); } while (0)' % n)
            body.append('if (x) %s(%s, 5); else %s(int, 7);' % (n, R.choice(['int', 'long', 'char', 'unsigned char']), n))
        elif k == 8:
            m.d('%s (x)' % n); pr(n + ' + 1')
        elif k == 9:
            m.d('%s() 77' % n); pr('%s() + %s ( )' % (n, n))
        elif k == 10:
            m.d('%s(a) a' % n)
            pr('%s(%s)(%d)' % (n, 'id', R.randint(1, 9))); pr('%s(%s(%s))' % (n, n, n + '(4)'))
        elif k == 11:
            m.d('%s id' % n); pr('%s(3)' % n); m.d('%sx(a) [a]' % n); body.append('{ int %sx = 4; printf("%%d ", %sx); }' % (n, n))
        elif k == 12:
            m.d('%s 1' % n); pr(n); body.append('#undef %s\n#define %s 2' % (n, n)); pr(n + ' * 10')
        elif k == 13:
            m.d('%s' % n); pr('%s 5 %s' % (n, n)); pr('%s - %s -x' % (n, n))
        elif k == 14:
            m.d('%s -1' % n); pr('3 -%s' % n); pr('-%s' % n)
        elif k == 15:
            m.d('%s __LINE__' % n); body.append('printf("%%d\\n", %s);' % n); body.append('printf("%d ", __LINE__);')
        elif k == 16:
            m.d('%s(a, b, c) #a #b #c' % n if False else '%s(a, b) a(#b)' % n); body.append('printf("%%s ", %s(%s, %s));' % (n, R.choice(['', '(char *)']), R.choice(['x y', 'z', '1+1'])))
        elif k == 17:
            m.d('%s(a) a##_t %s##a' % (n, 'v')); body.append('{ typedef int q_t; %s(q) = 6; printf("%%d ", vq); }' % n)
    body = [x for x in body if x]
    # some of the definitions come only before their use
    return m.lines, body

def chop(R, lines, body, fix=lambda s: s):
    s = '#include <stdio.h>\n' + PRE + '\n'.join(lines) + '\n'
    fs = chunks(body, 6)
    for i, f in enumerate(fs):
        s += 'void t%d(void)\n{\n' % i + ''.join(('    ' if l[0] != '#' else '') + l + '\n' for l in f) + '}\n'
    return s + 'int main(void)\n{\n' + ''.join('    t%d();\n' % i for i in range(len(fs))) + '    return 0;\n}\n'

# ------------------------------------------------------------------ conditionals
class Cnd:
    def __init__(self, R):
        self.R = R
        self.defs = {}
        self.k = 0
    def val(self):
        R = self.R
        return R.choice(['0', '1', '2', '7', '-1', '0x10', '017', '5', '100', '2147483648', '9223372036854775807', '0xffffffffffffffff', "'a'", "'\\n'", "'\\377'", '3L', '4u', '1UL', '0u', 'A', 'B', 'C', 'UNDEF', 'D', '10LL'])
    def e(self, d=0):
        R = self.R
        r = R.random()
        if d > 3 or r < .25:
            return self.val()
        if r < .35:
            return R.choice(['defined(%s)', 'defined %s', '!defined(%s)', '! defined %s', 'defined ( %s )']) % R.choice(['A', 'B', 'C', 'UNDEF', 'D', 'G', 'INT_MAX'])
        if r < .43:
            return R.choice(['!%s', '~%s', '-%s', '+%s']) % self.p(d)
        if r < .5:
            return '%s ? %s : %s' % (self.p(d), self.p(d), self.p(d))
        if r < .56:
            x = self.e(d + 1)
            return R.choice(['G(%s)', 'H(%s, 2)']) % (x if 'defined' not in x else 'D')
        if r < .6:
            return R.choice(['0 && 1 / 0', '1 || 1 % 0', '1 ? 2 : 3 / 0', '0 && (2 / 0 > 1)'])
        if r < .66:
            return '%s %s %d' % (self.p(d), R.choice(['<<', '>>']), R.randint(0, 8))
        op = R.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '&&', '||', '==', '<', '>'])
        return '%s %s %s' % (self.p(d), op, self.p(d))
    def p(self, d):
        s = self.e(d + 1)
        return s if ' ' not in s and s[0] not in '-+~!' or self.R.random() < .3 and '?' not in s else '(%s)' % s
    def text(self):
        self.k += 1
        return '    printf("%d ");\n' % self.k
    def group(self, d, live=True):
        R = self.R
        s = ''
        for _ in range(R.randint(1, 3)):
            r = R.random()
            if r < .4 or d > 3:
                s += self.text()
            elif r < .5:
                n = R.choice('ABC')
                s += '#undef %s\n#define %s %s\n' % (n, n, R.choice(['0', '1', '(2 + 3)', 'D', '']) if False else R.choice(['0', '1', '(2 + 3)', 'D']))
            elif r < .55:
                s += R.choice(['#\n', '#undef NEVER\n', '#pragma omp x\n', '# /* nothing */\n', '#undef D\n#define D 3\n', '#ifdef UNDEF\n#endif\n'])
            else:
                s += self.cond(d + 1)
        return s
    def head(self):
        R = self.R
        r = R.random()
        if r < .2:
            return R.choice(['#ifdef %s\n', '# ifdef %s // c\n', '#ifdef\t%s /* */\n']) % R.choice(['A', 'UNDEF', 'B', 'NEVER', 'G', '__STDC__', '__linux__', 'unix', '__x86_64__', '__GNUC__'])
        if r < .35:
            return '#ifndef %s\n' % R.choice(['A', 'UNDEF', 'D', 'linux', 'INT_MAX', '__STDC_VERSION__'])
        return '#if %s\n' % self.e()
    def junk(self):
        return self.R.choice(["    it isn't C ( } \"\n", '#error no\n', '#include "none.h"\n', '#include <nothing>\n', '#unknown directive\n', '    /* #else */\n', '#define 5\n', '#undef A\n', '#define A 9\n', '#if\n#endif\n', '#ifdef\n#endif\n', '#if 1 +\n#elif (\n#else\n#endif\n'])
    def cond(self, d):
        R = self.R
        if R.random() < .15:      # a group that is never read
            return '#if 0\n' + ''.join(self.junk() for _ in range(R.randint(1, 3))) + ('#else\n' + self.group(d) if R.random() < .5 else '') + '#endif\n'
        s = self.head() + self.group(d)
        for _ in range(R.choice([0, 0, 1, 2])):
            s += '#elif %s\n' % self.e() + self.group(d)
        if R.random() < .6:
            s += R.choice(['#else\n', '# else /* c */\n', '#else // x\n']) + self.group(d)
        return s + R.choice(['#endif\n', '# endif\n', '#endif // c\n'])

def conditions_program(R):
    c = Cnd(R)
    head = '#include <stdio.h>\n' + ('#include <limits.h>\n' if R.random() < .3 else '')
    head += '#define A %s\n#define B %s\n#define C A + B\n#define D 0\n#define G(a) ((a) * 2 > 5)\n#define H(a, b) a + b\n' % (R.choice(['0', '1', '5']), R.choice(['0', '2', '-3', '(A - 1)']))
    s = head
    for i in range(3):
        s += 'void t%d(void)\n{\n' % i + c.group(0) + c.group(0) + '    printf("%d;", A + C * 2);\n}\n'
    return s + 'int main(void)\n{\n    t0();\n    t1();\n    t2();\n    return 0;\n}\n'

# ------------------------------------------------------------------ headers of the program
def files_program(R):
    k = R.randint(0, 6)
    if k == 0:         # a list that is included with different meanings of X
        items = ['X(%s, %d)' % (n, R.randint(1, 99)) for n in R.sample(['red', 'green', 'blue', 'cyan', 'pink'], R.randint(2, 4))]
        fs = {'list.def': '\n'.join(items) + '\n' + R.choice(['', '#undef X\n'])}
        u = '' if '#undef' in fs['list.def'] else '#undef X\n'
        return '#include <stdio.h>\nenum {\n#define X(n, v) n = v,\n#include "list.def"\n%s    last\n};\nint main(void)\n{\n#define X(n, v) printf("%%s=%%d ", #n, n);\n#include "list.def"\n%s#define X(n, v) + n\n    return (0\n#include "list.def"\n    ) & 127;\n}\n' % (u, u), fs
    if k == 1:         # a parameter of the header
        v = R.choice([1, 2, 3])
        fs = {'conf.h': '#ifndef MODE\n#define MODE 1\n#endif\n#if MODE == 1\n#define NAME "one"\n#elif MODE == 2\n#define NAME "two"\n#else\n#define NAME "many"\n#endif\n'}
        return '#include <stdio.h>\n%s#include "conf.h"\nint main(void)\n{\n    printf("%%s %%d %%d", NAME, MODE, __LINE__);\n    return 0;\n}\n' % ('#define MODE %d\n' % v if R.random() < .7 else ''), fs
    if k == 2:         # a cycle, stopped by the guards
        fs = {'a.h': '#ifndef A_H\n#define A_H\n#include "b.h"\nint fa(int n) { return n ? fb(n - 1) + 1 : %d; }\n#endif\n' % R.randint(0, 50),
              'b.h': '#ifndef B_H\n#define B_H\nint fa(int n);\nint fb(int n);\n#include "a.h"\nint fb(int n) { return fa(n) * 2; }\n#endif\n'}
        inc = ['#include "a.h"', '#include "b.h"', '#include <stdio.h>']
        R.shuffle(inc)
        return '\n'.join(inc) + '\nint main(void)\n{\n    printf("%%d", fa(%d));\n    return 0;\n}\n' % R.randint(0, 3), fs
    if k == 3:         # a generic function: the type is a macro
        ts = R.sample(['int', 'long', 'char', 'short', 'double'], R.randint(1, 3))
        fs = {'gen.h': '#define PASTE_(a, b) a##_##b\n#define PASTE(a, b) PASTE_(a, b)\nT PASTE(max, T)(T a, T b)\n{\n    return a > b ? a : b;\n}\n#undef PASTE\n#undef PASTE_\n#undef T\n'}
        s = '#include <stdio.h>\n' + ''.join('#define T %s\n#include "gen.h"\n' % t for t in ts)
        return s + 'int main(void)\n{\n' + ''.join('    printf("%%ld ", (long)max_%s(%d, %d));\n' % (t, R.randint(-99, 99), R.randint(-99, 99)) for t in ts) + '    return 0;\n}\n', fs
    if k == 4:         # conditional includes
        a = R.randint(0, 2)
        fs = {'one.h': 'int v = 1;\n', 'two.h': 'int v = 22;\n#define TWO\n'}
        return '#include <stdio.h>\n#define SEL %d\n#if SEL == 1\n#include "one.h"\n#elif SEL == 2\n# include "two.h"\n#else\n#include "%s"\n#endif\n#ifdef MISSING\n#include "missing.h"\n#endif\n/*\n#include "gone.h"\n*/\n// #include "no.h"\nint main(void)\n{\n    char *s = "\\\n#include <x.h>";\n#ifdef TWO\n    v += 100;\n#endif\n    printf("%%d %%s", v, s);\n    return 0;\n}\n' % (a, R.choice(['one.h', 'two.h'])), fs
    if k == 5:         # the name of the header is a macro
        fs = {'h1.h': '#define Q 1\n#undef WHICH\n#define WHICH "h2.h"\n#include WHICH\n', 'h2.h': '#define P (Q + %d)\n' % R.randint(1, 9)}
        return '#include <stdio.h>\n#define WHICH "h1.h"\n#include WHICH\nint main(void)\n{\n    printf("%d %d", P, Q);\n    return 0;\n}\n', fs
    # a group that begins and ends in the middle of things; code in a header
    fs = {'body.inc': '    printf("%d ", K);\n#define DONE' + R.choice(['\n', '']), 'decl.h': 'struct P { int a, b; };\nstatic int total = %d;\n#define P_INIT {%d, %d}\n' % (R.randint(1, 9), R.randint(1, 9), R.randint(1, 9))}
    return '#include "decl.h"\n#include <stdio.h>\nint f(struct P *p\n#ifdef EXTRA\n    , int q\n#else\n    , long q\n#endif\n)\n{\n    return p->a * (int)q + p->b\n#if %d\n        + total\n#endif\n    ;\n}\nint main(void)\n{\n    struct P p = P_INIT;\n#define K f(&p, %d)\n#include "body.inc"\n#undef K\n#define K __LINE__ + p.a\n#ifdef DONE\n#include "body.inc"\n#endif\n    return 0;\n}\n' % (R.randint(0, 1), R.randint(1, 9)), fs

BADS = ['#error stop\n', '#include "none.h"\n', '#include <nothing.h>\n', '#if 1\n', '#endif\n', '#else\n', '#elif 1\n', '#if 0\n#else\n#else\n#endif\n', '#if 0\n#else\n#elif 1\n#endif\n',
        '#if 1 / 0\n#endif\n', '#if 1 +\n#endif\n', '#if\n#endif\n', '#if (1\n#endif\n', '#if 1 2\n#endif\n', '#ifdef\n#endif\n', '#define\n', '#define 5 6\n', '#define defined 1\n', '#undef\n', '#include\n', '#include none\n',
        '#nothing\n', '#if 5 % (2 - 2)\n#endif\n', '#if "a"\n#endif\n', '#define TWO(a, b) a + b\nint z = TWO(1);\n', '#define TWO(a, b) a + b\nint z = TWO(1, 2, 3);\n', '#define PA(a, b) a##b\nint z = 1 PA(+, *) 2;\n', '#define ONE(a) a\nint z = ONE(1;\n']
HIDE = ['%s', '#if 1\n%s#endif\n', '#ifdef NOT\n#else\n%s#endif\n', '#if 0\n#elif 2 > 1\n%s#endif\n']
def bad_program(R, bad):
    h = R.choice(HIDE) if bad.count('#if') == bad.count('#endif') and bad[:3] != '#el' else '%s'
    fs = {}
    t = h % bad
    if R.random() < .25 and 'int z' not in bad:
        fs, t = {'inner.h': t}, '#include "inner.h"\n'
    at = R.randint(0, 2)
    return ('#include <stdio.h>\n' + (t if at == 0 else '') + 'int x = 1;\n' + (t if at == 1 else '') + 'int main(void)\n{\n    printf("%d", x);\n    return 0;\n}\n' + (t if at == 2 else ''), fs)

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 6
    items = []          # (note, text, files)
    add = lambda note, x: items.append((note, x, {}) if isinstance(x, str) else (note, x[0], x[1]))
    for _ in range(2 * k):
        add('all characters', ctype_all(R))
    for _ in range(8 * k):
        add('characters', ctype_use(R))
    for _ in range(24 * k):
        add('limits', limits_program(R))
    for _ in range(12 * k):
        add('types of the headers', types_program(R))
    for _ in range(24 * k):
        add('includes', includes_program(R))
    for _ in range(50 * k):
        add('macros', chop(R, *macros_program(R)))
    for _ in range(40 * k):
        add('conditions', conditions_program(R))
    for _ in range(28 * k):
        add('files', files_program(R))
    bads = BADS if ctx.quick else BADS * 4
    for x in bads:
        add('rejected', bad_program(R, x))
    pp = preprocess_all(ctx, [(t, f) for _, t, f in items])
    engine.say('preprocessed at %.1f' % ctx.elapsed())
    cases, rej, odd = [], [], 0
    for (note, t, f), (why, text) in zip(items, pp):
        if why == 'ok' and note != 'rejected':
            cases.append(Case(t, None, None, note, spec_src=text, files=f))
        elif why != 'ok' and note == 'rejected':
            rej.append(('%s (%s)' % (note, why), t, f))
        elif why in ('condition', 'macro call'):
            odd += 1         # the random expression has no value
        else:
            raise ToolError('Cpp.tla says %s of a %s program:\n%s\n%r' % (why, note, t, f))
    if odd > len(items) * .2:
        raise ToolError('%d of %d programs have no text' % (odd, len(items)))
    ctx.cov['without_text'] = odd
    engine.check_rejected(ctx, rej)
    check_cases(ctx, cases)
