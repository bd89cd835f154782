"""Static data: initial values, lifetimes, identity and separation of globals, statics and string literals."""
from .common import *
from .c09 import INTS, FLTS, T
from .c10 import Leaf, Arr, Ptr, Agg, declare
RULE = ('sets of globals of every type (integers, floats, pointers into other objects, arrays of every dimension, strings, structures, unions, '
        'enumerations) with every kind of initialiser (members of every type with constants of every type) and with none, printed at the start, modified at random, and printed again; static '
        'locals in functions, recursion, loops, nested blocks and tail calls; string literals with all escapes, zero bytes, every length, '
        'in every kind of expression; program arguments of many shapes beside them. Non-trivial: at least 50 machine steps, distinct source.')

ESC = ['\\n', '\\t', '\\\\', '\\"', "\\'", '\\0', '\\x41', '\\101', '\\a', '\\b', '\\f', '\\r', '\\v', '\\?', '\\7', '\\x7f', '\\177', '\\x1', '%%']
CH = 'abcdefghijklmnopqrstuvwxyzABCXYZ0189 !#$&()*+,-./:;<=>?@[]^_{|}~'
def string(R, n=None, zeros=True):
    n = R.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31]) if n is None else n
    out = []
    for i in range(n):
        if R.random() < .25:
            e = R.choice(ESC)
            out.append('\\t' if not zeros and e == '\\0' else e)
        else:
            c = R.choice(CH)
            # a digit after a numeric escape would belong to it
            if out and out[-1][0] == '\\' and c in '0123456789abcdefABCDEF':
                c = '_'
            out.append(c)
    s = ''.join(out)
    return '"' + s.replace('??', '? ') + '"'

class Data:
    def __init__(self, R):
        self.R, self.n = R, 0
        self.objs = []                       # (name, type, dims)
    def scalar(self):
        R = self.R
        return R.choice(INTS) if R.random() < .8 else R.choice(FLTS)
    def value(self, t):
        R = self.R
        v = R.choice(t.vals)
        r = R.random()
        if t in INTS and r < .25:
            a, b = R.randint(-20, 20), R.randint(1, 9)
            return R.choice(['%d + %d', '%d * %d', '%d - %d', '(%d << 2) / %d' if a > 0 else '%d / %d', '%d %% %d', '%d > %d']) % (a, b)
        if t in INTS and r < .33:
            return R.choice(["'a'", "'\\n'", '(char)300', 'sizeof(int)', '-1', '~0', '!5', '1 ? 7 : 8', 'K2', 'K1 + 1', '3.75', '1 && 0'])
        if t in FLTS and r < .3:
            return R.choice(['3', '-7', '1 / 2', '1.5 + 2', "'a'", '-0.5', '2.5 * 4'])
        return v
    def one(self, i):
        """(declaration, function of prefix that lists the expressions to print)"""
        R, name = self.R, 'g%d' % i
        r = R.randrange(13)
        stat = 'static ' if R.random() < .25 else ''
        if r < 3:
            t = self.scalar()
            self.objs.append((name, t, ()))
            return '%s%s %s%s;' % (stat, t.c, name, ' = ' + self.value(t) if R.random() < .75 else ''), [(t, name)]
        if r < 5:
            t = self.scalar()
            dims = R.choice([(1,), (2,), (3,), (5,), (2, 2), (2, 3), (3, 1), (2, 1, 2)])
            ini = self.arr(t, dims) if R.random() < .75 else None
            n0 = '' if ini and len(dims) == 1 and self.full else dims[0]
            self.objs.append((name, t, dims))
            return '%s%s %s[%s]%s%s;' % (stat, t.c, name, n0, ''.join('[%d]' % d for d in dims[1:]), ' = ' + ini if ini else ''), [(t, name + x) for x in self.idx(dims)]
        if r < 7:
            # a pointer into an object before it
            if not self.objs:
                return self.one(i)
            o, t, dims = R.choice(self.objs)
            self.ptrs.append((name, o, t, dims))
            if R.random() < .15:
                return '%s%s *%s;' % (stat, t.c, name), [('null', name)]
            e = R.choice(list(self.idx(dims)))
            at = '&' + o + e
            if len(dims) == 1:
                k = int(e[1:-1])
                at = R.choice([at, '%s + %d' % (o, k), '&%s[%d]' % (o, k)] + ([o] if k == 0 else []))
            return '%s%s *%s = %s;' % (stat, t.c, name, at), [('same', name, '&' + o + e), (t, '*' + name)]
        if r == 7:
            s = string(R)
            k = R.randint(0, 3)
            # the length of the array: inferred, exact, longer
            return R.choice(['%schar %s[] = %s;' % (stat, name, s), '%schar %s[] = {%s};' % (stat, name, s), '%schar %s[40] = %s;' % (stat, name, s)]), [('bytes', name)]
        if r == 8:
            s = string(R)
            return '%schar *%s = %s;' % (stat, name, s), [('str', name, s)]
        if r == 9:
            ss = [string(R, zeros=False) for _ in range(R.randint(1, 4))]
            return '%schar *%s[] = {%s};' % (stat, name, ', '.join(ss)), [('str', '%s[%d]' % (name, j), s) for j, s in enumerate(ss)]
        if r == 10:
            a, b = self.scalar(), self.scalar()
            st = 'struct S%d { %s x; %s y[2]; char s[5]; char *p; }' % (i, a.c, b.c)
            s1, s2 = string(R, R.randint(0, 4), False), string(R, None, False)
            shows = [(a, name + '.x'), (b, name + '.y[0]'), (b, name + '.y[1]'), ('bytes', name + '.s')]
            if R.random() < .3:
                return '%s%s %s;' % (stat, st, name), shows + [('null', name + '.p')]
            full = R.random() < .7
            if full:
                shows.append(('str', name + '.p', s2))
            return '%s%s %s = {%s, {%s}, %s%s};' % (stat, st, name, self.value(a), ', '.join(self.value(b) for _ in range(R.randint(1, 2))), s1, ', ' + s2 if full else ''), shows + ([] if full else [('null', name + '.p')])
        if r == 11:
            a, b = self.scalar(), self.scalar()
            k = R.randint(1, 3)
            it = ', '.join('{%s%s}' % (self.value(a), ', ' + self.value(b) if R.random() < .7 else '') for _ in range(R.randint(1, k)))
            return '%sstruct Q%d { %s a; %s b; } %s[%d]%s;' % (stat, i, a.c, b.c, name, k, ' = {%s}' % it if R.random() < .7 else ''), [
                (t, '%s[%d].%s' % (name, j, m)) for j in range(k) for t, m in ((a, 'a'), (b, 'b'))]
        a, b = self.scalar(), self.scalar()
        return '%sunion U%d { %s a; %s b; } %s = {%s};' % (stat, i, a.c, b.c, name, self.value(a)), [(a, name + '.a')]
    def arr(self, t, dims):
        k = dims[0] if self.R.random() < .7 else self.R.randint(1, dims[0])
        if len(dims) == 1:
            self.full = k == dims[0]
            return '{%s}' % ', '.join(self.value(t) for _ in range(k))
        return '{%s}' % ', '.join(self.arr(t, dims[1:]) for _ in range(k))
    def idx(self, dims):
        if not dims:
            return ['']
        return ['[%d]%s' % (i, x) for i in range(dims[0]) for x in self.idx(dims[1:])]
    def show(self, s):
        if s[0] == 'null':
            return 'printf("%%d ", %s == 0);' % s[1]
        if s[0] == 'same':
            return 'printf("%%d ", %s == %s);' % (s[1], s[2])
        if s[0] == 'bytes':
            return 'bytes(%s, sizeof(%s));' % (s[1], s[1])
        if s[0] == 'str':
            return 'bytes(%s, sizeof(%s));' % (s[1], s[2])
        return 'printf("%s ", %s);' % (s[0].fmt, s[0].show % s[1])
    def program(self):
        R = self.R
        self.ptrs = []
        decl, shows = [], []
        for i in range(R.randint(4, 10)):
            d, s = self.one(i)
            decl.append(d)
            shows += s
        # functions may come between the globals
        ops = []
        for _ in range(R.randint(3, 8)):
            o = R.choice(shows)
            if isinstance(o[0], T):
                ops.append('%s = %s;' % (o[1], R.choice(o[0].vals)))
                if R.random() < .3:
                    ops.append('%s++;' % o[1])
            elif self.ptrs and R.random() < .6:
                p, ob, t, dims = R.choice(self.ptrs)
                ops.append('%s = &%s%s;' % (p, ob, R.choice(list(self.idx(dims)))))
                ops.append('*%s = %s;' % (p, R.choice(t.vals)))
        pr = [self.show(s) for s in shows]
        funs = 'void bytes(char *s, int n)\n{\n    for (int i = 0; i < n; i++) printf("%d ", s[i]);\n}\n'
        calls = ''
        for j, c in enumerate(chunks(pr, 5)):
            funs += 'void show%d(void)\n{\n    %s\n    printf("\\n");\n}\n' % (j, '\n    '.join(c))
            calls += 'show%d(); ' % j
        for j, c in enumerate(chunks(ops, 4)):
            funs += 'void op%d(void)\n{\n    %s\n}\n' % (j, '\n    '.join(c))
        return HEAD + 'enum K { K1 = -5, K2, K3 = 1 << 4 };\n' + '\n'.join(decl) + '\n' + funs + 'int main(void)\n{\n    %s\n    %s\n    %s\n    return 0;\n}\n' % (
            calls, ' '.join('op%d();' % j for j in range(len(chunks(ops, 4)))), calls)

# statics: {T} a type, {V0}.. values, {n} a small number; functions | body of main
STATICS = [
 '{T} next(void)\n{\n    static {T} v = {V0};\n    v ^= 1;\n    return v;\n}\n|<next()> <next()> <next()>',
 'int count(void)\n{\n    static int n;\n    return ++n;\n}\nint twice(void)\n{\n    count();\n    return count();\n}\n|printf("%d %d %d %d", count(), twice(), count(), twice());',
 'int f(int n)\n{\n    static int depth = 0, most = 0;\n    int r;\n    depth++;\n    if (depth > most) most = depth;\n    r = n > 0 ? f(n - 1) + f(n - 2) + depth : most;\n    depth--;\n    return r;\n}\n|printf("%d %d", f({n}), f(2));',
 'void f(int n)\n{\n    for (int i = 0; i < n; i++)\n    {\n        static {T} a = {V0}, b;\n        int c = i;\n        if (i % 2) a = b; else b = {V1};\n        <a> <b> printf("%d ", c);\n    }\n}\n|f({n}); f(2);',
 'int f(void)\n{\n    static int x = 1;\n    {\n        static int x = 10;\n        x++;\n        {\n            static int x = 100;\n            x += 5;\n            printf("%d ", x);\n        }\n        printf("%d ", x);\n    }\n    x *= 2;\n    return x;\n}\nint g(void)\n{\n    static int x = 1000;\n    return x--;\n}\n|for (int i = 0; i < {n}; i++) printf("%d %d ", f(), g());',
 '{T} *cell(int i)\n{\n    static {T} a[4] = {{V0}, {V1}};\n    return &a[i];\n}\n|<*cell(0)> <*cell(1)> <*cell(3)> *cell(2) = {V2}; *cell(0) = {V3}; <*cell(2)> <cell(1)[1]> <*cell(0)> printf("%d", (int)(cell(3) - cell(1)));',
 'char *name(int i)\n{\n    static char buf[8] = "abcdef";\n    static char *last;\n    buf[i] = \'A\' + i;\n    if (last) printf("%d ", last == buf);\n    last = buf;\n    return buf;\n}\n|printf("%s ", name(1)); printf("%s ", name(4)); printf("%s ", name({n} % 6));',
 'int fact(int n, int acc)\n{\n    static int calls;\n    calls++;\n    if (n < 2) return acc * 100 + calls;\n    return fact(n - 1, acc * n);\n}\n|printf("%d %d %d", fact({n}, 1), fact(3, 1), fact(1, 7));',
 'int g = {n};\nint *gp = &g;\nint **gpp = &gp;\nint other = 5;\nvoid swap(void)\n{\n    static int *keep = &other;\n    int *t = gp;\n    gp = keep;\n    keep = t;\n}\n|**gpp += 1; printf("%d ", g); swap(); **gpp = 50; printf("%d %d ", other, g); swap(); *gp = 3; printf("%d %d", g, **gpp);',
 'static int a = 1;\nint b;\nint a2(void)\n{\n    return a + b;\n}\nstatic int c = 7;\nint set(int x)\n{\n    a = x;\n    b = a * 2;\n    c++;\n    return a2();\n}\n|printf("%d %d ", a2(), set({n})); { int a = 50; static int b = 60; b += a; printf("%d %d ", a2(), b); } printf("%d %d %d", a, b, c);',
 'struct Node { {T} v; struct Node *n; };\nstruct Node last = {{V0}, 0};\nstruct Node mid = {{V1}, &last};\nstruct Node head = {{V2}, &mid};\nstruct Node *list = &head;\n|for (struct Node *p = list; p; p = p->n) <p->v> last.n = &mid; mid.n = 0; list = &last; for (struct Node *p = list; p; p = p->n) <p->v>',
 'int sum(void)\n{\n    static int a[3] = {1, 2, 3};\n    static int i;\n    a[i % 3] += i;\n    i++;\n    return a[0] * 100 + a[1] * 10 + a[2];\n}\n|for (int k = 0; k < {n}; k++) printf("%d ", sum());',
 'int state(int in)\n{\n    static enum { IDLE, RUN = 5, STOP } s;\n    switch (s)\n    {\n    case IDLE:\n        if (in) s = RUN;\n        break;\n    case RUN:\n        if (!in) s = STOP;\n        break;\n    default:\n        s = IDLE;\n    }\n    return s;\n}\n|for (int i = 0; i < 8; i++) printf("%d ", state((i * {n}) % 3));',
 'int n1;\nint get(void)\n{\n    return n1;\n}\nint n2 = 4;\nint add(int k)\n{\n    if (k == 0) return n1 + n2;\n    n1 += k;\n    n2 = n1;\n    return add(k - 1);\n}\n|printf("%d %d %d", get(), add({n}), get());',
 '{T} t[2][3] = {{{V0}, {V1}}, {{V2}}};\n{T} *row[2] = {t[0], t[1]};\n{T} (*whole)[3] = t;\n|<row[0][1]> <row[1][0]> <whole[1][2]> row[1][1] = {V3}; <t[1][1]> whole[0][2] = {V4}; <row[0][2]> <t[0][0]>',
 'int once(void)\n{\n    static int done;\n    if (done) return 0;\n    done = 1;\n    printf("first ");\n    return 1;\n}\nint main2(int k)\n{\n    int s = 0;\n    while (k--) s += once();\n    return s;\n}\n|printf("%d %d", main2({n}), main2(2));',
 'struct P { int x; int y; } origin;\nstruct P *where(void)\n{\n    static struct P p = {3, 4};\n    p.x += origin.x;\n    return &p;\n}\n|printf("%d ", where()->x); origin.x = {n}; where()->y = 9; printf("%d %d", where()->x, where()->y);',
 'int f(int k)\n{\n    static int first = 1;\n    switch (k)\n    {\n    case 1:\n        {\n            static int s = 20;\n            return s++;\n        }\n    case 2:\n        {\n            static int s = 30;\n            return s += first;\n        }\n    }\n    first = k;\n    return -1;\n}\n|printf("%d %d %d %d %d %d", f(1), f(2), f({n} + 3), f(2), f(1), f(1));',
]
# literals; <s0> .. string literals
LITS = [
 'bytes(<s0>, sizeof(<s0>)); bytes(<s1>, sizeof(<s1>)); bytes(<s2>, sizeof <s2>);',
 'char *p = <s0>, *q = <s1>; bytes(p, sizeof(<s0>)); bytes(q, sizeof(<s1>));',
 'char a[] = <s0>; char b[40] = <s1>; a[0] = 1; b[sizeof(b) - 1] = 2; bytes(a, sizeof(a)); bytes(b, sizeof(b)); bytes(<s0>, sizeof(<s0>)); bytes(<s1>, sizeof(<s1>));',
 'for (int i = 0; i < 3; i++) { char *p = i == 0 ? <s0> : i == 1 ? <s1> : <s2>; int n = i == 0 ? sizeof(<s0>) : i == 1 ? sizeof(<s1>) : sizeof(<s2>); bytes(p, n); }',
 'char *t[3] = {<s0>, <s1>, <s2>}; int n[3] = {sizeof(<s0>), sizeof(<s1>), sizeof(<s2>)}; for (int i = 2; i >= 0; i--) bytes(t[i], n[i]);',
 'printf("%d %d %d ", <s0>[0], *<s1>, <s2>[sizeof(<s2>) - 1]); bytes(<s0> + 1, sizeof(<s0>) - 1); bytes(&<s1>[0], 1);',
 'for (int i = 0; i < 2; i++) { char a[] = <s0>; bytes(a, sizeof(a)); a[0] = 90; a[sizeof(a) - 1] = 91; bytes(a, 1); }',
 'static char a[] = <s0>; static char *p = <s1>; bytes(a, sizeof(a)); bytes(p, sizeof(<s1>)); bytes(pick(0), sizeof(<s2>)); bytes(pick(1), sizeof(<s3>));',
 'struct { char a[40]; char *b; } v = {<s0>, <s1>}; bytes(v.a, sizeof(v.a)); bytes(v.b, sizeof(<s1>)); v.b = v.a; v.a[0] = 7; bytes(v.b, 3);',
 'unsigned char *u = (unsigned char *)<s0>; int n = 0; for (int i = 0; i < sizeof(<s0>); i++) n = (n * 31 + u[i]) % 10007; printf("%d ", n); bytes(<s3>, sizeof(<s3>));',
]
def literals(R):
    pre, body = 'void bytes(char *s, int n)\n{\n    for (int i = 0; i < n; i++) printf("%d ", s[i]);\n    printf("\\n");\n}\n', ''
    pick = None
    for i, t in enumerate(R.sample(LITS, 3)):
        ss = [string(R) for _ in range(4)]
        # tails, heads and copies of one another
        if R.random() < .5:
            ss[1] = '"' + ss[0][1:-1] + R.choice(['!', '\\0', '\\n']) + '"'
        if R.random() < .4:
            ss[2] = ss[0]
        if R.random() < .4:
            ss[3] = '"Q' + ss[0][1:]
        ss = [s if s != '""' or R.random() < .3 else '"z"' for s in ss]
        if any('[0]' in t and len(s) < 3 for s in ss):
            ss = [s if len(s) > 2 else '"y"' for s in ss]
        for j in range(4):
            t = t.replace('<s%d>' % j, ss[j])
        if 'pick(' in t:
            pre += 'char *pick(int i)\n{\n    if (i) return %s;\n    return %s;\n}\n' % (ss[3], ss[2])
        pre += 'void t%d(void)\n{\n    %s\n}\n' % (i, t)
        body += '    t%d();\n' % i
    return main(body, pre)

def statics(R, s):
    import re
    t = R.choice(INTS)
    vs = R.sample(t.vals, 6)
    for j in range(6):
        s = s.replace('{V%d}' % j, vs[j])
    s = s.replace('{T}', t.c).replace('{n}', str(R.randint(1, 6)))
    s = re.sub(r'(?<![^\s|])<(\S(?:[^<]*?\S)?)>(?=\s|$)', lambda m: 'printf("%s ", %s);' % (t.fmt, t.show % m.group(1)), s)
    pre, body = s.split('\n|', 1)
    return main('    ' + body + '\n    printf("\\n");', pre + '\n')

ARGS = [[], [''], ['a'], ['', ''], ['ab', 'c'], ['hello', 'world', '12'], ['-1', '--', '='], ['x' * 40], ['a b', ' ', 'c'], ['1'] * 9, ['abc', '', 'defgh', 'i' * 17]]
# main(int argc, char **argv) beside static data
ARGP = [
 '%s\nchar *keep;\nint main(int argc, char **argv)\n{\n    static int calls = 3;\n    for (int i = 1; i < argc; i++)\n    {\n        int n = 0;\n        while (argv[i][n]) n++;\n        printf("%%d:%%s ", n, argv[i]);\n        calls += n;\n    }\n    %s\n    printf("%%d %%d %%d\\n", argc, calls, argv[argc] == 0 || argc > 0);\n    return calls & 63;\n}\n',
 '%s\nint main(int argc, char *argv[])\n{\n    char *last = argv[argc - 1];\n    for (int i = 1; i < argc; i++)\n    {\n        for (char *p = argv[i]; *p; p++) if (*p >= \'a\' && *p <= \'z\') *p -= 32;\n    }\n    %s\n    for (int i = 1; i < argc; i++) printf("%%s|", argv[i]);\n    if (argc > 2) { char *t = argv[1]; argv[1] = argv[2]; argv[2] = t; printf("%%s %%s ", argv[1], argv[2]); }\n    argc *= 2;\n    printf("%%d\\n", argc);\n    return 0;\n}\n',
]
def argprog(R):
    d = Data(R)
    d.ptrs = []
    decl, shows = [], []
    for i in range(R.randint(1, 4)):
        a, s = d.one(i)
        decl.append(a)
        shows += s
    pr = ' '.join(d.show(s) for s in shows[:6])
    pre = 'enum K { K1 = -5, K2, K3 = 1 << 4 };\n' + '\n'.join(decl) + '\nvoid bytes(char *s, int n)\n{\n    for (int i = 0; i < n; i++) printf("%d ", s[i]);\n}\nvoid show(void)\n{\n    ' + pr + '\n}\n'
    return HEAD + R.choice(ARGP) % (pre.rstrip('\n'), 'show();')

def big(R):
    """much data"""
    n = R.choice([2000, 4000, 7000])
    t = R.choice(INTS)
    m = n // {'char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4}.get(t.c, 8)
    ks = sorted(R.sample(range(m), 4) + [0, m - 1])
    f = '%s big[%d];\nint after = 77;\nchar *text = "after the data";\n' % (t.c, m)
    body = '    int local = 5;\n' + ''.join('    big[%d] = %s;\n' % (k, R.choice(t.vals)) for k in ks)
    f += 'void show(int k)\n{\n    printf("%s ", big[k]);\n}\n' % t.fmt
    body += ''.join('    show(%d);\n' % k for k in ks) + '    printf("%d %d %s\\n", after, local, text);'
    return main(body, f)

KWS = [dict(globals=(4, 10), funs=(1, 4), stmts=4, depth=2, calls=1, arrays=1, budget=110)]

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 6
    cases = finding_cases(ctx)
    cases += [Case(Data(R).program(), None, None, 'sets of globals') for _ in range(90 * k)]
    for _ in range(2 * k):
        cases += [Case(statics(R, s), None, None, 'statics') for s in STATICS]
    from .c10 import initialisers
    cases += [Case(s, [0, 7] if ctx.quick else None, None, 'static initialisers') for s in initialisers(False)]
    cases += [Case(literals(R), None, None, 'literals') for _ in range(35 * k)]
    cases += [Case(argprog(R), None, R.sample(ARGS, 2), 'arguments') for _ in range(20 * k)]
    cases += [Case(big(R), None, None, 'large data') for _ in range(4 * k)]
    cases += random_programs(ctx, 25 * k, 'C11', KWS)
    check_cases(ctx, cases)
