"""Calls: argument and result conversion, parameters, recursion of every shape, caller state preserved."""
from .common import *
RULE = ('signatures of up to 9 parameters over all integer types, float, double and pointers, called with arguments of every '
        'other type, from literals, variables, expressions and nested calls; results of every type through every return type; '
        'prototypes before and after; direct and mutual recursion whose activations keep arrays, structures and addresses '
        'live over calls; random call graphs with random bodies. Non-trivial: at least 50 machine steps, distinct source.')

TY = ITYS
CK = {t.k: t.c for t in ITYS}

def val(R, t):
    return R.choice(edge(t)) if R.random() < 0.6 else R.randint(t.lo, t.hi)

def show(t, e):
    return FMT[t.k], e

class Sigs:
    """a program of functions that print and combine their parameters"""
    def __init__(self, R):
        self.R = R
        self.pre, self.post, self.calls = [], [], []
        self.n = 0
    def function(self):
        R = self.R
        self.n += 1
        n = R.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 9])
        ps = [R.choice(TY) for _ in range(n)]
        dbl = [R.random() < 0.1 for _ in range(n)]
        rt = R.choice(TY)
        name = 'f%d' % self.n
        pt = [('double' if R.random() < .5 else 'float') if d else p.c for p, d in zip(ps, dbl)]
        sig = '%s %s(%s)' % (rt.c, name, ', '.join('%s p%d' % (c, i) for i, c in enumerate(pt)) or 'void')
        proto = '%s %s(%s);' % (rt.c, name, ', '.join(c + (' q%d' % i if R.random() < .5 else '') for i, c in enumerate(pt)) or 'void')
        body = []
        for i, (p, d) in enumerate(zip(ps, dbl)):
            body.append('printf("%s ", %s);' % ('%ld' if d else FMT[p.k], '(long)(p%d * 4)' % i if d else 'p%d' % i))
            if R.random() < 0.3 and not d:
                body.append('p%d ^= %d; printf("%s,", p%d);' % (i, R.randint(1, 100), FMT[p.k], i))
        if R.random() < 0.3:
            k = R.randint(1, 5)
            body.insert(0, 'int loc[%d]; for (int i = 0; i < %d; i++) loc[i] = i * 7;' % (k, k))
            body.append('printf("l%%d ", loc[%d]);' % R.randrange(k))
        ints = ['p%d' % i for i, d in enumerate(dbl) if not d]
        e = R.choice(ints) if ints and R.random() < 0.8 else lit(val(R, R.choice(TY)))[0]
        if ints and R.random() < .4:
            e = '%s %s %s' % (e, R.choice('&|^'), R.choice(ints))
        body.append('return %s;' % e)
        text = '%s\n{\n    %s\n}' % (sig, '\n    '.join(body))
        if R.random() < 0.5:
            self.pre.append(proto)
            self.post.append(text)
        else:
            if R.random() < 0.3:
                self.pre.append(proto)
            self.pre.append(text)
        self.f = (name, ps, dbl, rt)
        return self.f
    def arg(self, t, d, fs, depth, decls, names):
        R = self.R
        if d:
            v = R.randint(-1000, 1000)
            r = R.randrange(3)
            if r == 0:
                return '%d.%s' % (v, R.choice(['0', '25', '5', '75']))
            if r == 1:
                return '%d' % v if v >= 0 else '(%d)' % v
            decls.append('float v%d = %d.5;' % (len(decls), v) if R.random() < .5 else 'short v%d = %d;' % (len(decls), v))
            return 'v%d' % (len(decls) - 1)
        r = R.random()
        if depth > 0 and r < 0.25 and fs:
            return self.call(R.choice(fs), fs, depth - 1, decls, names)
        at = t if R.random() < 0.35 else R.choice(TY)
        v = val(R, at)
        if r < 0.5:
            return lit(v)[0]
        decls.append('%s v%d = %s;' % (at.c, len(decls), lit(v)[0]))
        n = 'v%d' % (len(decls) - 1)
        if r < 0.65:
            return '%s %s %s' % (n, R.choice('&|^'), lit(val(R, I32))[0])
        names.append((n, at))
        return n
    def call(self, f, fs, depth, decls, names):
        name, ps, dbl, rt = f
        return '%s(%s)' % (name, ', '.join(self.arg(p, d, fs if depth > 0 else [], depth, decls, names) for p, d in zip(ps, dbl)))


def signatures(R):
    S = Sigs(R)
    fs = [S.function() for _ in range(R.randint(2, 4))]
    lines = []
    for _ in range(8):
        decls, names = [], []
        f = R.choice(fs)
        # only one nested call per call, so that the order of the output is fixed
        for _ in range(20):
            decls, names = [], []
            c = S.call(f, fs, 2, decls, names)
            if once(c):
                break
        else:
            continue
        rt = f[3]
        use = R.randrange(4)
        if use == 0:
            u = 'printf("%s\\n", %s);' % (FMT[rt.k], c)
        elif use == 1:
            to = R.choice(TY)
            u = '%s r = %s; printf("%s\\n", r);' % (to.c, c, FMT[to.k])
        elif use == 2:
            u = 'printf("%%d\\n", (%s) %s %s);' % (c, R.choice(['<', '>', '==', '!=', '>=']), lit(val(R, rt))[0])
        else:
            u = '%s; printf("\\n");' % c
        after = ''.join(' printf("%s ", %s);' % (FMT[t.k], n) for n, t in names)
        lines.append('    { %s %s%s printf("\\n"); }' % (' '.join(decls), u, after))
    pre = '\n'.join(S.pre) + '\n'
    post = '\n'.join(S.post) + '\n'
    fn, calls = '', ''
    for i, c in enumerate(chunks(lines, 2)):
        fn += 'void t%d(void)\n{\n%s\n}\n' % (i, '\n'.join(c))
        calls += '    t%d();\n' % i
    return HEAD + pre + fn + 'int main(void)\n{\n' + calls + '    return 0;\n}\n' + post

def once(c):
    """every call in c has at most one argument that contains a call"""
    import re
    depth, stack = 0, []
    i = 0
    counts = [0]
    for m in re.finditer(r'f\d+\(|\(|\)', c):
        s = m.group()
        if s[0] == 'f':
            counts[-1] += 1
            if counts[-1] > 1:
                return False
            stack.append('f'); counts.append(0)
        elif s == '(':
            stack.append('(')
        else:
            if stack.pop() == 'f':
                counts.pop()
    return True

RECURSIVE = [
 # (functions, calls): each takes care of a shape of recursion; %(a)d etc. are small random numbers
 ('int fact(int n)\n{\n    if (n <= 1) return 1;\n    return n * fact(n - 1);\n}\n', 'printf("%%d\\n", fact(%(a)d));'),
 ('long fib(%(t)s n)\n{\n    return n < 2 ? n : fib(n - 1) + fib(n - 2);\n}\n', 'printf("%%ld\\n", fib(%(b)d));'),
 ('int ack(int m, int n)\n{\n    if (m == 0) return n + 1;\n    if (n == 0) return ack(m - 1, 1);\n    return ack(m - 1, ack(m, n - 1));\n}\n', 'printf("%%d\\n", ack(2, %(m)d));'),
 ('int odd(int n);\nint even(int n)\n{\n    if (n == 0) return 1;\n    return odd(n - 1);\n}\nint odd(int n)\n{\n    if (n == 0) return 0;\n    return even(n - 1);\n}\n',
  'printf("%%d %%d\\n", even(%(a)d), odd(%(b)d));'),
 ('int sum(int *a, int n)\n{\n    int h[2];\n    if (n == 0) return 0;\n    if (n == 1) return a[0];\n    h[0] = sum(a, n / 2);\n    h[1] = sum(a + n / 2, n - n / 2);\n    printf("(%%d %%d)", h[0], h[1]);\n    return h[0] + h[1];\n}\n',
  '{ int x[7] = {%(a)d, %(b)d, %(c)d, 4, 5, 6, 7}; printf("%%d\\n", sum(x, 7)); }'),
 ('int chain(int *up, int n)\n{\n    int mine = n * %(c)d;\n    if (n == 0) return *up;\n    int r = chain(&mine, n - 1);\n    *up += mine;\n    printf("%%d.%%d.%%d ", mine, *up, r);\n    return r + mine;\n}\n',
  '{ int top = %(b)d; printf("%%d ", chain(&top, 4)); printf("%%d\\n", top); }'),
 ('void hanoi(int n, char from, char to, char via)\n{\n    if (n == 0) return;\n    hanoi(n - 1, from, via, to);\n    printf("%%c%%c ", from, to);\n    hanoi(n - 1, via, to, from);\n}\n',
  "hanoi(3, 'a', 'b', 'c'); printf(\"\\n\");"),
 ('struct T { int v; struct T *l; struct T *r; };\nint depth(struct T *t)\n{\n    int a, b;\n    if (!t) return 0;\n    a = depth(t->l);\n    b = depth(t->r);\n    printf("%%d:%%d,%%d ", t->v, a, b);\n    return (a > b ? a : b) + 1;\n}\n',
  '{ struct T n[5]; for (int i = 0; i < 5; i++) { n[i].v = i; n[i].l = 0; n[i].r = 0; } n[0].l = &n[%(i)d]; n[0].r = &n[4]; n[4].l = &n[3]; printf("%%d\\n", depth(n)); }'),
 ('int walk(int n, int k)\n{\n    int s = 0;\n    for (int i = 0; i < k; i++) {\n        int before = s * 10 + i;\n        if (n > 0) s += walk(n - 1, i);\n        printf("%%d", before);\n        s += before;\n    }\n    return s;\n}\n', 'printf(" %%d\\n", walk(2, 3));'),
 ('int mc(int n)\n{\n    return n > 20 ? n - 2 : mc(mc(n + 3));\n}\n', 'printf("%%d\\n", mc(%(b)d));'),
 ('int tak(int x, int y, int z)\n{\n    if (y >= x) return z;\n    return tak(tak(x - 1, y, z), tak(y - 1, z, x), tak(z - 1, x, y));\n}\n', 'printf("%%d\\n", tak(4, 2, %(c)d - 1));'),
 ('int *longest(int *a, int *b)\n{\n    return *a > *b ? a : b;\n}\nint *best(int *a, int n)\n{\n    if (n == 1) return a;\n    return longest(a, best(a + 1, n - 1));\n}\n',
  '{ int x[5] = {%(a)d, 9, %(b)d, 8, 3}; *best(x, 5) = -1; for (int i = 0; i < 5; i++) printf("%%d ", x[i]); printf("\\n"); }'),
 ('void rev(const char *s)\n{\n    if (*s == 0) return;\n    rev(s + 1);\n    printf("%%c", *s);\n}\n', 'rev("recursion %(a)d"); printf("\\n");'),
 ('int fill(char *buf, int n, char c)\n{\n    char here[3];\n    here[0] = c; here[1] = c + 1; here[2] = 0;\n    if (n > 0) {\n        fill(buf + 1, n - 1, c + 2);\n    }\n    buf[0] = here[n %% 2];\n    return here[0] + here[1];\n}\n',
  "{ char b[6]; b[5] = 0; int q = fill(b, 4, 'a'); printf(\"%%s %%d\\n\", b, q); }"),
 ('int perm(int *a, int k, int n)\n{\n    int c = 0;\n    if (k == n) { printf("%%d%%d%%d ", a[0], a[1], a[2]); return 1; }\n    for (int i = k; i < n; i++) {\n        int t = a[k]; a[k] = a[i]; a[i] = t;\n        c += perm(a, k + 1, n);\n        t = a[k]; a[k] = a[i]; a[i] = t;\n    }\n    return c;\n}\n',
  '{ int a[3] = {%(a)d, %(b)d, %(c)d}; printf("%%d\\n", perm(a, 0, 3)); }'),
 ('int calls;\nint count(int n, int x)\n{\n    calls++;\n    if (n == 0) return x;\n    return count(n - 1, x + 1) + count(n - 1, x - 1) + calls %% 2;\n}\n', 'printf("%%d ", count(3, %(b)d)); printf("%%d\\n", calls);'),
 ('%(t)s gcd(%(t)s a, %(t)s b)\n{\n    %(t)s r;\n    if (b == 0) return a;\n    r = a %% b;\n    return gcd(b, r);\n}\n', 'printf("%%ld\\n", (long)gcd(48, %(a)d * 6));'),
 ('int vla(int n)\n{\n    int a[n];\n    for (int i = 0; i < n; i++) a[i] = n * 10 + i;\n    if (n > 1) a[n - 1] += vla(n - 1);\n    int s = 0;\n    for (int i = 0; i < n; i++) { printf("%%d ", a[i]); s += a[i]; }\n    return s;\n}\n', 'printf("%%d\\n", vla(4));'),
]

def recursive(R, k):
    pre, body = '', ''
    for f, c in k:
        d = dict(a=R.randint(3, 7), b=R.randint(2, 8), c=R.randint(1, 4), m=R.randint(0, 2), i=R.randint(1, 2),
                 t=R.choice(['int', 'short', 'char', 'unsigned int', 'long', 'unsigned long', 'unsigned short']))
        pre += f % d
        body += '    ' + c % d + '\n'
    return main(body, pre)

class Graph:
    """functions that call one another at random with decreasing fuel"""
    def __init__(self, R):
        self.R = R
    def program(self):
        R = self.R
        n = R.randint(2, 5)
        sigs = []
        for i in range(n):
            k = R.randint(0, 4)
            sigs.append((R.choice(TY), [R.choice(TY) for _ in range(k)]))
        out = []
        for i, (rt, ps) in enumerate(sigs):
            out.append('%s g%d(int fuel%s);' % (rt.c, i, ''.join(', %s p%d' % (t.c, j) for j, t in enumerate(ps))))
        for i, (rt, ps) in enumerate(sigs):
            vs = [('p%d' % j, t) for j, t in enumerate(ps)]
            b = []
            if R.random() < .3:
                b.append('if (fuel < 0) return %s;' % lit(val(R, rt))[0])
            for j in range(R.randint(0, 3)):
                t = R.choice(TY)
                b.append('%s l%d = %s;' % (t.c, j, R.choice([v for v, _ in vs] + [lit(val(R, t))[0]])))
                vs.append(('l%d' % j, t))
            if R.random() < .4:
                b.append('int arr[3] = {fuel, %d, %d};' % (R.randint(0, 9), R.randint(0, 9)))
                vs.append(('arr[%d]' % R.randrange(3), I32))
            b.append('printf("%d:%%d", fuel);' % i)
            for _ in range(R.randint(1, 2)):
                j = R.randrange(n)
                rj, pj = sigs[j]
                args = ['fuel - %d' % R.randint(1, 2)] + [R.choice([v for v, _ in vs] + [lit(val(R, t))[0]]) for t in pj]
                c = 'g%d(%s)' % (j, ', '.join(args))
                ints = [(v, t) for v, t in vs if v[0] != 'a']
                form = R.randrange(4)
                if form == 0 and ints:
                    v, t = R.choice(ints)
                    s = '%s = %s;' % (v, c)
                elif form == 1 and ints:
                    v, t = R.choice(ints)
                    s = '%s ^= %s;' % (v, c)
                elif form == 2:
                    s = 'printf("<%s>", %s);' % (FMT[rj.k], c)
                else:
                    s = c + ';'
                b.append('if (fuel > %d) %s' % (R.randint(0, 1), s))
            b.append('printf("[' + ' '.join(FMT[t.k] for _, t in vs) + ']"' + ''.join(', ' + v for v, _ in vs) + ');')
            e = R.choice([v for v, _ in vs]) if vs else 'fuel'
            b.append('return %s;' % e)
            out.append('%s g%d(int fuel%s)\n{\n    %s\n}' % (rt.c, i, ''.join(', %s p%d' % (t.c, j) for j, t in enumerate(ps)), '\n    '.join(b)))
        body = ''
        for _ in range(3):
            j = R.randrange(n)
            rj, pj = sigs[j]
            body += '    printf("=%s\\n", g%d(%s));\n' % (FMT[rj.k], j, ', '.join(['%d' % R.randint(1, 3)] + [lit(val(R, t))[0] for t in pj]))
        return main(body, '\n'.join(out) + '\n')

KWS = [dict(calls=2.0, funs=(3, 6), stmts=4, depth=2, loops=0.5, budget=120),
       dict(calls=1.5, funs=(2, 5), stmts=4, depth=1, loops=0.6, structs=0.6, ptrs=1.5, arrays=1, budget=120)]

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 6
    cases = finding_cases(ctx)
    cases += [Case(signatures(R), note='signatures') for _ in range(170 * k)]
    for _ in range(6 * k):
        xs = RECURSIVE[:]
        R.shuffle(xs)
        cases += [Case(recursive(R, c), note='recursion') for c in chunks(xs, 3)]
    cases += [Case(Graph(R).program(), note='call graphs') for _ in range(120 * k)]
    cases += random_programs(ctx, 90 * k, 'C04', KWS)
    check_cases(ctx, cases)
