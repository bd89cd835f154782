"""Stack allocation: variables that share space are never needed at the same time, and no frame gets larger."""
from .common import *
import stacklog
from stacklog import SCase
TECHNIQUE = 'TLA+/TLC trace validation of behaviours (spec/CSem.tla) and of the logs of the stack pointer (spec/StackLog.tla) with and without the optimisation'
RULE = ('functions with up to 16 scalar variables of all widths, assigned and last used at random points of random control flow '
        '(branches, loops, switch, forward and backward goto, early exits), read only when they are assigned on every path; '
        'variables that are only read through pointers, pointers that change their target, arrays and structures between '
        'scalars, values live over calls and loop back edges; with and without stack allocation. For every pair of types and every operator, functions in which it is the last use of a variable. Logs of the stack pointer with '
        'and without it. Non-trivial: at least 50 machine steps, distinct source.')

class Fn:
    def __init__(self, R, name):
        self.R, self.name = R, name
        self.n = 0
        self.vars = {}          # name -> type
        self.ptrs = {}          # pointer -> target type
        self.lines, self.ind = [], 1
        self.budget = R.randint(10, 26)
        self.labels = 0
        self.loop = 0
        self.decls = []
    def emit(self, s):
        self.lines.append('    ' * self.ind + s)
    def ty(self):
        return self.R.choice(ITYS) if self.R.random() < .7 else I32
    def expr(self, A, PT):
        R = self.R
        def atom():
            r = R.random()
            xs = sorted(A)
            ps = sorted(p for p in PT if PT[p])
            if ps and r < .2:
                return '*' + R.choice(ps)
            if xs and r < .85:
                return R.choice(xs)
            return str(R.randint(0, 300))
        e = atom()
        for _ in range(R.choice([0, 1, 1, 2, 3])):
            e = '%s %s %s' % (e, R.choice('^^&|'), atom())
        r = R.random()
        if r < .12:
            return 'id(%s)' % e
        if r < .2:
            return '(%s & 255) + (%s & 63)' % (e, atom())
        if r < .25:
            return 'mix(%s, %s)' % (atom(), atom())
        return e
    def cond(self, A, PT):
        R = self.R
        xs = sorted(A)
        return '%s %% %d' % ('(%s)' % self.expr(A, PT), R.choice([2, 3])) if R.random() < .2 else \
            '(%s & %d) %s' % (R.choice(xs) if xs else 'k', R.choice([1, 2, 3, 5, 8, 16]), R.choice(['', '== 1', '> 0', '!= 2']))
    # A: variables that have a value; PT: pointer -> does it point to something that has a value
    def stmts(self, n, A, PT):
        """-> (A, PT) after"""
        for _ in range(n):
            if self.budget <= 0:
                break
            A, PT = self.stmt(A, PT)
        return A, PT
    def assign(self, A, PT):
        R = self.R
        xs = sorted(self.vars)
        if R.random() < .12 and [p for p in PT if PT[p]]:
            p = R.choice(sorted(p for p in PT if PT[p]))
            self.emit('*%s %s %s;' % (p, R.choice(['=', '^=', '|=']), self.expr(A, PT)))
            return A, PT
        if R.random() < .15:
            un = [v for v in xs if v not in A]
            if un:
                xs = un
        v = R.choice(xs)
        if v in A and R.random() < .3:
            self.emit('%s %s= %s;' % (v, R.choice('^&|'), self.expr(A, PT)))
        elif v in A and R.random() < .15 and self.vars[v].bits >= 32:
            self.emit('%s = (%s & 4095) %s 1;' % (v, v, R.choice('+-')))
        else:
            self.emit('%s = %s;' % (v, self.expr(A, PT)))
        return A | {v}, PT
    def meet(self, a, b):
        return a[0] & b[0], {p: a[1].get(p) and b[1].get(p) for p in a[1]}
    def stmt(self, A, PT):
        R = self.R
        self.budget -= 1
        r = R.random()
        deep = self.ind > 3
        if r < .42 or deep and r < .7:
            return self.assign(A, PT)
        if r < .54:
            xs = sorted(A)
            xs = R.sample(xs, min(len(xs), R.randint(1, 4)))
            ps = [p for p in sorted(PT) if PT[p]]
            if ps and R.random() < .5:
                p = R.choice(ps)
                self.emit('printf("%s ", *%s);' % (FMT[self.ptrs[p].k], p))
            elif xs:
                self.emit('printf("%s\\n", %s);' % (' '.join(FMT[self.vars[x].k] for x in xs), ', '.join(xs)))
            return A, PT
        if r < .61 and self.ptrs:
            p = R.choice(sorted(self.ptrs))
            c = [v for v in A if self.vars[v] is self.ptrs[p]]
            if c:
                self.emit('%s = &%s;' % (p, R.choice(c)))
                return A, dict(PT, **{p: True})
            return A, PT
        if r < .75:
            self.emit('if (%s) {' % self.cond(A, PT))
            self.ind += 1
            a = self.stmts(R.randint(1, 3), A, PT)
            exits = False
            if R.random() < .12:
                self.emit('printf("early\\n"); return %s;' % self.expr(a[0], a[1]))
                exits = True
            elif self.loop and R.random() < .3:
                self.emit(R.choice(['break;', 'continue;']))
                exits = True
            self.ind -= 1
            if R.random() < .6:
                self.emit('} else {')
                self.ind += 1
                b = self.stmts(R.randint(1, 3), A, PT)
                self.ind -= 1
            else:
                b = (A, PT)
            self.emit('}')
            return b if exits else self.meet(a, b)
        if r < .88:
            self.n += 1
            i = 'i%d' % self.n
            self.decls.append('int %s;' % i)
            c = R.randint(1, 3)
            kind = R.randrange(4)
            step = i + '++'
            if kind == 0:
                self.emit('for (%s = 0; %s < %d; %s) {' % (i, i, c, step))
            elif kind == 1:
                self.emit('%s = 0;' % i)
                self.emit('while (%s++ < %d) {' % (i, c))
            elif kind == 2:
                self.emit('%s = %d;' % (i, c))
                self.emit('do {')
            else:
                self.labels += 1
                lab = '%s_l%d' % (self.name, self.labels)
                self.emit('%s = %d;' % (i, c))
                self.emit('%s: ;' % lab)
            self.ind += 1
            keep = self.loop
            self.loop = 1 if kind < 3 else 0
            # pointers may have moved in an earlier turn, but always to something with a value
            a = self.stmts(R.randint(2, 4), A, PT)
            had = self.loop
            self.loop = keep
            self.ind -= 1
            if kind < 2:
                self.emit('}')
            elif kind == 2:
                self.emit('} while (--%s > 0);' % i)
            else:
                self.emit('if (--%s > 0) goto %s;' % (i, lab))
                return a
            return A, PT
        if r < .94:
            self.emit('switch (%s & 3) {' % (R.choice(sorted(A)) if A else 'k'))
            outs = []
            ks = R.sample(range(4), R.randint(1, 3))
            keep, self.loop = self.loop, 0
            start = (A, PT)
            for j, kk in enumerate(ks):
                self.emit('case %d: ;' % kk)
                self.ind += 1
                # falling into a case, only what both ways have is there
                o = self.stmts(R.randint(1, 2), *start)
                self.ind -= 1
                if R.random() < .7:
                    self.emit('    break;')
            self.loop = keep
            self.emit('}')
            return A, PT
        # a scope of its own, with a shadowing variable
        self.emit('{')
        self.ind += 1
        t = self.ty()
        self.n += 1
        v = 't%d' % self.n
        self.emit('%s %s = %s;' % (t.c, v, self.expr(A, PT)))
        if R.random() < .3:
            self.emit('int arr%d[3] = {%s, 2, 3};' % (self.n, R.choice(sorted(A)) if A else '1'))
        own = self.n
        arr = 'arr%d' % own in self.lines[-1]
        self.vars[v] = t
        a = self.stmts(R.randint(1, 4), A | {v}, PT)
        del self.vars[v]
        if arr:
            self.emit('printf("%%d ", arr%d[0] + arr%d[1] + arr%d[2]);' % (own, own, own))
        self.emit('printf("%s\\n", %s);' % (FMT[t.k], v))
        self.ind -= 1
        self.emit('}')
        # a pointer to the inner variable must not be used afterwards
        inner = '&%s;' % v
        PT2 = dict(a[1])
        if any(inner in l for l in self.lines):
            for p in PT2:
                PT2[p] = False
        return a[0] - {v}, PT2
    def text(self):
        R = self.R
        np = R.randint(1, 3)
        ps = []
        A = set()
        for i in range(np):
            t = self.ty()
            self.vars['a%d' % i] = t
            ps.append('%s a%d' % (t.c, i))
            A.add('a%d' % i)
        late = []
        for i in range(R.randint(3, 12)):
            t = self.ty()
            v = 'v%d' % i
            self.vars[v] = t
            if R.random() < .35:
                late.append('%s %s = %s;' % (t.c, v, R.choice(sorted(A))))
                A.add(v)
            else:
                late.append('%s %s;' % (t.c, v))
        ptl = []
        ts = [t for t in self.vars.values()]
        for i in range(R.choice([0, 0, 1, 2, 3])):
            t = R.choice(ts)
            self.ptrs['p%d' % i] = t
            ptl.append('%s *p%d;' % (t.c, i))
        PT = {p: False for p in self.ptrs}
        if R.random() < .3:
            # all uses of a variable are far from its assignment
            R.shuffle(late) if False else None
        A, PT = self.stmts(40, A, PT)
        xs = [x for x in sorted(A) if R.random() < .5] or sorted(A)[:1]
        for c in chunks(xs, 6):
            self.emit('printf("%s\\n", %s);' % (' '.join(FMT[self.vars[x].k] for x in c), ', '.join(c)))
        self.emit('return %s;' % self.expr(A, PT))
        rt = self.ty()
        self.rt = rt
        return '%s %s(%s)\n{\n    int k = a0;\n    %s\n%s\n}\n' % (
            rt.c, self.name, ', '.join(ps), '\n    '.join(late + ptl + self.decls), '\n'.join(self.lines)), np

def lifetimes(R):
    out = 'int id(int x)\n{\n    int y = x & 1023;\n    long z = y;\n    return z ^ 1;\n}\nlong mix(long a, int b)\n{\n    short c = b;\n    char d = a;\n    return c * 3 + d;\n}\n'
    body = ''
    for i in range(R.randint(1, 2)):
        f = Fn(R, 'f%d' % i)
        t, np = f.text()
        out += t
        for _ in range(2):
            body += '    printf("=%s\\n", f%d(%s));\n' % (FMT[f.rt.k], i, ', '.join(str(R.randint(0, 200)) for _ in range(np)))
    return main(body, out)

PAT = [
 # a value that is only read through a pointer
 '{T} x; {T} *p = &x; {U} y, z;\n    x = a;\n    y = b; z = y ^ 5;\n    printf("{F} {G} {G}\\n", *p, y, z);',
 '{T} x = a; {T} *p = &x; {T} **pp = &p; {U} y = b;\n    { {U} w = y ^ 3; **pp ^= 7; printf("{G} ", w); }\n    printf("{F} {F} {G}\\n", **pp, x, y);',
 '{T} x, *p; {U} y;\n    p = &x;\n    for (int i = 0; i < 3; i++) { if (i) printf("{F} ", *p); y = b ^ i; x = a ^ i; printf("{G} ", y); }\n    printf("{F}\\n", x);',
 '{T} x; {U} y;\n    if (a & 1) { x = a; } else { y = b; x = y ^ 1; }\n    y = x ^ 2;\n    printf("{F} {G}\\n", x, y);',
 '{T} old; {U} t; int i;\n    for (i = 0; i < 4; i++) {\n        if (i > 0) { printf("{F} ", old); }\n        t = b ^ i;\n        printf("{G} ", t);\n        old = a ^ i;\n    }\n    printf("\\n");',
 '{T} first; int i = 0; {U} t;\nagain:\n    t = b ^ i;\n    if (i == 0) first = a;\n    printf("{F} {G} ", first, t);\n    if (i++ < 3) goto again;\n    printf("\\n");',
 'struct S { {T} m; {U} n; } s, *q = &s; {U} y = b; {T} x;\n    s.m = a; s.n = b;\n    x = q->m ^ 1; y ^= q->n ^ 2;\n    printf("{F} {G} {F} {G}\\n", s.m, s.n, x, y);',
 '{T} arr[3]; {U} y = b; {T} *p = arr + 1;\n    arr[0] = a; arr[1] = a ^ 1; arr[2] = a ^ 2;\n    { {U} z = y ^ 1; printf("{G} ", z); }\n    *p ^= 8; printf("{F} {F} {F} {G}\\n", arr[0], arr[1], arr[2], y);',
 '{T} x = a; {U} y = b; {T} r; {U} s;\n    r = x, s = y;\n    x = r ^ 1; y = s ^ 1;\n    printf("{F} {G} {F} {G}\\n", x, y, r, s);',
 '{T} x = a; {U} y = b;\n    { {T} t = x; x = y; y = t; }\n    { {U} t = y; y = x; x = t; }\n    printf("{F} {G}\\n", x, y);',
 '{T} x; {T} y; {T} *p = a & 1 ? &x : &y; {U} z = b;\n    x = a; y = a ^ 1; z ^= 3;\n    *p ^= 4;\n    printf("{F} {F} {G}\\n", x, y, z);',
 '{T} x = a; {U} y = b; int n = 0;\n    while (n < 5) {\n        {T} u; {U} w;\n        n++;\n        if (n == 2) continue;\n        u = x ^ n; w = y ^ n;\n        if (n == 4) break;\n        x = u; y = w;\n        printf("{F} {G} ", u, w);\n    }\n    printf("{F} {G} %d\\n", x, y, n);',
 '{T} v0 = a, v1, v2, v3; {U} w0 = b, w1, w2, w3;\n    v1 = v0 ^ 1; w1 = w0 ^ 1; v2 = v1 ^ 2; w2 = w1 ^ v0; v3 = v2 ^ w1; w3 = w2 ^ v1;\n    printf("{F} {G} {F} {G} {F}\\n", v3, w3, v2, w2, v0);',
 '{T} x = a; int r;\n    switch (x & 3) {\n    case 0: r = 1; break;\n    case 1: { {U} t = b ^ 1; r = t & 7; }\n    case 2: r = 5;\n    default: { {U} u = b; r = u & 3; printf("{G} ", u); }\n    }\n    printf("{F} %d\\n", x, r);',
 '{T} x = a; {U} y = b; {U} z;\n    z = y++ ^ 1;\n    int c = x > 3 && (y ^= 2) > 1 || (z ^= 4) > 0;\n    {T} q = c ? x : (x ^= 1, x);\n    printf("{F} {G} {G} %d {F}\\n", x, y, z, c, q);',
 '{T} *p = 0; {U} k = b; {T} y = a;\n    for (int i = 0; i < 3; i++) {\n        {U} junk = k ^ i;\n        if (p) { printf("{F} ", *p); }\n        p = &y; y ^= i;\n        printf("{G} ", junk);\n    }\n    printf("{F} {G}\\n", y, k);',
]
def patterns(R):
    pre, body = '', ''
    for i, p in enumerate(R.sample(PAT, 4)):
        t, u = R.choice(ITYS), R.choice(ITYS)
        pre += 'void t%d(%s a, %s b)\n{\n    %s\n}\n' % (i, t.c, u.c, p.replace('{T}', t.c).replace('{U}', u.c).replace('{F}', FMT[t.k]).replace('{G}', FMT[u.k]))
        body += '    t%d(%s, %s);\n    t%d(%d, %d);\n' % (i, lit(R.choice(edge(t)))[0], lit(R.choice(edge(u)))[0], i, R.randint(0, 9), R.randint(0, 100))
    return main(body, pre)

ALLT = [(t.c, FMT[t.k], 1) for t in ITYS] + [('float', '%f', 0), ('double', '%f', 0)]
def last_uses():
    """for every type: the last use of a variable is each of the instructions, while others are needed"""
    out = []
    for s, fs, si in ALLT:
        pre, body = '', ''
        for i, (d, fd, di) in enumerate(ALLT):
            pre += ('%s c%d(%s n, %s *q)\n{\n    %s m = n + 2;\n    %s o = n + 1;\n    %s e = (%s)m;\n    %s w = e + 1;\n    %s g = o;\n    *q = g + w;\n    return e;\n}\n'
                    '%s r%d(%s n)\n{\n    %s m = n * 2;\n    return m;\n}\n%s u%d(%s n)\n{\n    %s m;\n    m = n + 3;\n    %s k = m;\n    %s z = n;\n    return k + z;\n}\n') % (
                    d, i, s, d, s, s, d, d, d, d, d, i, s, s, d, i, s, s, d, s)
            body += '    { %s q; printf("%s ", c%d(%d, &q)); printf("%s ", q); printf("%s %s\\n", r%d(7), u%d(9)); }\n' % (d, fd, i, 3 + i, fd, fd, fd, i, i)
        out.append(main(body, pre))
        for d, fd, di in (ALLT if si else ALLT[-2:]):
            pre, body = '', ''
            ops = ['+', '-', '*', '/', '<', '>', '<=', '>=', '==', '!=', '&&', '||'] + (['%', '&', '|', '^', '<<', '>>'] if si and di else [])
            for i, op in enumerate(ops):
                t = ('float' if 'float' in (s, d) and 'double' not in (s, d) else 'double') if not (si and di) else 'long'
                pre += '%s b%d(%s n, %s k)\n{\n    %s x = n + 20;\n    %s y = k + 1;\n    %s v = n + 5;\n    %s r = x %s y;\n    %s w = v * 2;\n    return r + w;\n}\n' % (t, i, s, d, s, d, s, t, op, s)
                body += '    printf("%s ", b%d(%d, 2));\n' % ('%ld' if t == 'long' else '%f', i, i + 1)
            un = ['-x', '!x', '+x'] + (['~x'] if si else []) + ['x ? 4 : 9', '(x, 3)', 'p[0] + x', '*p ^ 1' if si else '*p + 1', 'id(x)', 'a[(int)x & 3]']
            for i, e in enumerate(un):
                pre += 'long id%d(%s n)\n{\n    %s t = n + 1;\n    return (long)t;\n}\n%s e%d(%s n)\n{\n    int a[4] = {5, 6, 7, 8};\n    %s x = n + 2;\n    %s k = n + 3, *p = &k;\n    %s r = %s;\n    %s z = n + 4;\n    return r + z;\n}\n' % (
                    i, s, s, d, i, s, s, s, d, e.replace('id(', 'id%d(' % i), s)
                body += '    printf("%s ", e%d(%d));\n' % (fd, i, i)
            out.append(main(body + '    printf("\\n");\n', pre))
    return out

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 6
    cfgs = lambda: [0, 4, R.choice([1, 2, 3])]
    cases = finding_cases(ctx)
    life = [lifetimes(R) for _ in range(230 * k)]
    cases += [Case(s, cfgs(), None, 'lifetimes') for s in life]
    tab = last_uses()
    cases += [Case(s, [0, 4], None, 'last uses') for s in (R.sample(tab, 50) if ctx.quick else tab)]
    pats = [patterns(R) for _ in range(110 * k)]
    cases += [Case(s, cfgs(), None, 'patterns of lifetimes') for s in pats]
    rnd = random_programs(ctx, 70 * k, 'C06', [dict(calls=.7, funs=(1, 3), stmts=6, depth=2, loops=1, gotos=.6, ptrs=1, budget=140)], cfgs=[0, 4])
    cases += rnd
    check_cases(ctx, cases)
    g = lambda: R.choice([0, 1, 2, 3])
    sc = []
    for s in life[:60 * k] + pats[:40 * k] + [c.src for c in rnd[:40 * k]]:
        b = g()
        sc.append(SCase('below', [(s, 8 + b), (s, 12 + b)], 'the same program with and without stack allocation'))
    stacklog.check(ctx, sc)
