"""Tail calls: the same behaviour with and without the optimisation; chains of self tail calls in a bounded stack."""
from .common import *
import stacklog
from stacklog import SCase
TECHNIQUE = 'TLA+/TLC trace validation of behaviours (spec/CSem.tla) and of the logs of the stack pointer (spec/StackLog.tla) with and without the optimisation'
RULE = ('tail-recursive functions with up to 6 parameters of mixed types whose arguments permute and combine one another, with tail '
        'calls in every position (branches, switches, loops, ?:, &&), of void and non-void functions; tail calls of other '
        'functions with other signatures and result types, mutual chains; frames whose addresses are taken and escape, which '
        'must not be reused; long chains (50000) whose result a short chain also has; logs of the stack pointer of chains of '
        'two lengths. With and without the optimisation. Non-trivial: at least 50 machine steps, distinct source.')
TYS = ITYS
SM = ['p%d']

class Tail:
    """one self tail-recursive function"""
    def __init__(self, R, name='f', simple=False):
        self.R, self.name, self.simple = R, name, simple
        self.k = R.choice([1, 2, 2, 3, 3, 4, 5, 6])
        self.ts = [R.choice(TYS) if R.random() < .6 else I32 for _ in range(self.k)]
        self.cpos = R.randrange(self.k + 1)
        self.fl = [i for i in range(self.k) if not simple and R.random() < .07]       # double parameters
        self.void = R.random() < .25
        self.rt = R.choice(TYS)
        self.ct = R.choice(['int', 'long', 'short', 'unsigned int', 'char', 'unsigned long'])
    def ctype(self, i):
        return 'double' if i in self.fl else self.ts[i].c
    def sig(self):
        ps = ['%s p%d' % (self.ctype(i), i) for i in range(self.k)]
        ps.insert(self.cpos, self.ct + ' n')
        return '%s %s(%s)' % ('void' if self.void else self.rt.c, self.name, ', '.join(ps))
    def ints(self):
        return [i for i in range(self.k) if i not in self.fl]
    def arg(self, i, perm):
        R = self.R
        if i in self.fl:
            return R.choice(['p%d' % i, 'p%d / 2' % i, 'p%d + 1.5' % R.choice(self.fl)] + ['p%d' % j for j in self.ints()])
        r = R.random()
        js = self.ints()
        if r < .45:
            return 'p%d' % perm[i]
        a, b = R.choice(js), R.choice(js)
        if r < .75:
            return 'p%d %s p%d' % (a, R.choice('^&|'), b)
        if r < .85:
            return '(p%d & 255) %s (p%d & 15)' % (a, R.choice('+-*'), b)
        if r < .9 and 'int help' in ''.join(self.extra):
            return 'help(p%d & 63, p%d & 7)' % (a, b)
        if r < .95:
            return 'p%d' % i
        return lit(R.choice(edge(self.ts[i])))[0]
    def call(self):
        R = self.R
        js = self.ints()
        perm = dict(zip(js, R.sample(js, len(js))))
        args = [self.arg(i, perm) for i in range(self.k)]
        # one argument may have an effect, on a parameter that no other argument uses
        c = 'n - 1'
        if R.random() < .15:
            c = '--n'
        if js and R.random() < .15:
            i = R.choice(js)
            used = ' '.join(a for j, a in enumerate(args) if j != i)
            free = [j for j in js if 'p%d' % j not in used]
            if free:
                j = R.choice(free)
                args[i] = R.choice(['p%d++', '++p%d', 'p%d--', '(p%d = 9)', '(p%d ^= 3)', '(p%d += 2, p%d)']).replace('%d', str(j)) \
                    if self.ts[j].bits > 16 or R.random() < .2 else '(p%d ^= 5)' % j
        args.insert(self.cpos, c)
        return '%s(%s)' % (self.name, ', '.join(args))
    def tail(self, ind='    '):
        """statements that end in a tail call"""
        R = self.R
        def ret(c):
            if not self.void:
                return 'return %s;' % c
            return c + ';' + R.choice(['', ' return;'])
        r = R.randrange(9 if not self.simple else 4)
        js = self.ints()
        cond = R.choice(['n %% %d == %d' % (m, R.randrange(m)) for m in (2, 3)] +
                        ([] if self.simple or not js else ['p%d & %d' % (R.choice(js), R.choice([1, 3, 64])), 'p%d > p%d' % (R.choice(js), R.choice(js))]))
        if r == 0:
            return ind + ret(self.call())
        if r == 1:
            return '%sif (%s) { %s }\n%selse { %s }' % (ind, cond, ret(self.call()), ind, ret(self.call()))
        if r == 2:
            a = self.call()
            return '%sif (%s)%s\n%s    %s\n%s%s' % (ind, cond, ' {' if self.void else '', ind, 'return ' + a + ';' if not self.void else a + '; return; }', ind, ret(self.call()))
        if r == 3 and not self.void:
            if self.simple:
                return '%sfor (int i = 0; i < 3; i++) {\n%s    if (i == %d) %s\n%s}\n%s' % (
                    ind, ind, R.randrange(4), ret(self.call()), ind, ind + ret(self.call()))
            return '%sreturn %s ? %s : %s;' % (ind, cond, self.call(), self.call())
        if r == 3:
            return '%swhile (1) { if (%s) { %s; return; } break; }\n%s%s' % (ind, cond, self.call(), ind, ret(self.call()))
        if r == 4:
            v = R.choice(['n %% 3' % () if False else 'n % 3'] + ['p%d & 3' % j for j in js])
            R2 = [ret(self.call()) + (' break;' if self.void else '') for _ in range(3)]
            return '%sswitch (%s) {\n%scase 0: %s\n%scase 1: %s\n%sdefault: %s\n%s}' % (
                ind, v, ind, R2[0], ind, R2[1], ind, R2[2], ind) + ('' if self.void else '\n%sreturn 0;' % ind)
        if r == 5:
            return '%sfor (int i = 0; i < 3; i++) {\n%s    printf(".");\n%s    if (i == %d) %s\n%s}\n%s' % (
                ind, ind, ind, R.randrange(4), 'return %s;' % self.call() if not self.void else '{ %s; return; }' % self.call(), ind, ind + ret(self.call()))
        if r == 6:
            return '%sdo { if (%s) %s printf("-"); n = n - 1; } while (n > 0);\n%s' % (
                ind, cond, 'return %s;' % self.call() if not self.void else '{ %s; return; }' % self.call(),
                '' if self.void else ind + 'return %s;' % (('p%d' % js[0]) if js else '1'))
        if r == 7 and not self.void:
            return '%sreturn (printf("!"), %s);' % (ind, self.call())
        return '%s{\n%s    int n2 = n;\n%s    { long p = n2 * 2; printf("%%ld;", p); }\n%s    %s\n%s}' % (ind, ind, ind, ind, ret(self.call()), ind) \
            + ('' if self.void else '\n%sreturn 3;' % ind if R.random() < .3 else '')
    def body(self, show=True):
        R = self.R
        b = []
        js = self.ints()
        self.extra = []
        if R.random() < .25:
            self.extra.append('int help(int a, int b)\n{\n    return a * b + 1;\n}\n')
        locs = ''
        if R.random() < .4:
            t = R.choice(TYS)
            locs += '    %s loc = %s;\n' % (t.c, 'p%d' % R.choice(js) if js and R.random() < .7 else 'n')
            if R.random() < .5:
                locs += '    loc ^= 3;\n'
            b.append(('%s' % FMT[t.k], 'loc'))
        if not self.simple and R.random() < .15:
            locs += '    static int st = 5;\n    st = (st * 3 + 1) & 255;\n'
            b.append(('%d', 'st'))
        if R.random() < .25:
            locs += '    glob = (glob ^ (int)n) & 1023;\n'
        sh = ''
        if show:
            sh = '    printf("%s/%%d ", %s(int)n);\n' % (
                ','.join([FMT[self.ts[i].k] if i not in self.fl else '%ld' for i in range(self.k)] + [f for f, _ in b]),
                ''.join(('(long)(p%d * 4)' if i in self.fl else 'p%d') % i + ', ' for i in range(self.k)) + ''.join(v + ', ' for _, v in b))
        base = '    if (%s) %s\n' % (R.choice(['n <= 0', 'n < 1', '!(n > 0)']),
                                     'return;' if self.void else 'return %s;' % (R.choice(['p%d' % j for j in js] or ['7'])))
        t = self.tail()
        parts = [locs + sh, base]
        if R.random() < .3 and not locs:
            parts.reverse()
        return 'int glob;\n' + ''.join(self.extra) + self.sig() + '\n{\n' + ''.join(parts) + t + '\n}\n'
    def main_call(self, n):
        R = self.R
        args = [('%d.25' % R.randint(0, 9)) if i in self.fl else lit(R.choice(edge(self.ts[i])) if R.random() < .5 else R.randint(self.ts[i].lo, self.ts[i].hi))[0] for i in range(self.k)]
        args.insert(self.cpos, str(n))
        c = '%s(%s)' % (self.name, ', '.join(args))
        if self.void:
            return '    %s;\n    printf("%%d\\n", glob);' % c
        return '    printf("=%s %%d\\n", %s, glob);' % (FMT[self.rt.k], c)

def self_tail(R):
    t = Tail(R)
    return t.body() + main('\n'.join(t.main_call(R.randint(2, 7)) for _ in range(2))).replace(HEAD, '', 1)

def with_head(s):
    return HEAD + s

def flat(R):
    t = Tail(R, simple=True)
    if t.ct == 'char':
        t.ct = 'int'
    t.void = False
    b = t.body(R.random() < .6)
    src = HEAD + 'long strtol(const char *s, char **e, int b);\n' + b + 'int main(int argc, char **argv)\n{\n%s\n    return 0;\n}\n' % \
        t.main_call('strtol(argv[1], (char **)0, 10)')
    cfg = R.choice([8, 10, 12, 14])
    return SCase('flat', [(src, cfg, n) for n in ('12', '60', '96')], 'chain of self tail calls')

class Web:
    """functions that tail-call one another, with other signatures"""
    def program(self, R):
        n = R.randint(2, 5)
        sg = []
        for i in range(n):
            sg.append((R.choice(TYS) if R.random() < .85 else None, [R.choice(TYS) if R.random() < .7 else I32 for _ in range(R.randint(0, 5))], R.randrange(3)))
        def params(i):
            ps = ['%s p%d' % (t.c, j) for j, t in enumerate(sg[i][1])]
            ps.insert(min(sg[i][2], len(ps)), 'int n')
            return ', '.join(ps)
        rt = lambda i: sg[i][0].c if sg[i][0] else 'void'
        out = ['int glob = 1;'] + ['%s w%d(%s);' % (rt(i), i, params(i)) for i in range(n)]
        def call(j, vs, dec='n - 1'):
            args = []
            for t in sg[j][1]:
                r = R.random()
                if vs and r < .6:
                    args.append(R.choice(vs))
                elif vs and r < .85:
                    args.append('%s %s %s' % (R.choice(vs), R.choice('^&|'), R.choice(vs)))
                else:
                    args.append(lit(R.choice(edge(t)))[0])
            args.insert(min(sg[j][2], len(args)), dec)
            return 'w%d(%s)' % (j, ', '.join(args))
        for i in range(n):
            vs = ['p%d' % j for j in range(len(sg[i][1]))]
            b = ['printf("%d:%s ", n%s);' % (i, '%d' + ''.join(',' + FMT[t.k] for t in sg[i][1]), ''.join(', ' + v for v in vs))]
            if R.random() < .4:
                t = R.choice(TYS)
                b.append('%s q = %s;' % (t.c, R.choice(vs + ['n'])))
                vs = vs + ['q']
            if R.random() < .2:
                b.append('{ int a[2]; a[0] = n; a[1] = glob; glob = a[0] ^ a[1]; }')
            b.append('if (n <= 0) return%s;' % (' ' + R.choice(vs + ['5']) if sg[i][0] else ''))
            def ret():
                j = R.choice([i, (i + 1) % n, R.randrange(n)])
                c = call(j, vs)
                if sg[i][0] is None:
                    return c + '; return;'
                if sg[j][0] is None:
                    return '{ %s; return %s; }' % (c, R.choice(vs + ['6']))
                r = R.random()
                if r < .12:
                    return '{ %s r = %s; return r; }' % (R.choice([sg[i][0], sg[j][0], I32]).c, c)
                if r < .2:
                    return 'return %s ^ 1;' % c
                if r < .26:
                    return '{ %s; return %s; }' % (c, R.choice(vs + ['8']))
                return 'return %s;' % c
            if R.random() < .6:
                b.append('if (%s) { %s }' % (R.choice(['n & 1', 'glob & 1', 'n % 3 == 1'] + [v + ' > 5' for v in vs]), ret()))
            b.append(ret())
            out.append('%s w%d(%s)\n{\n    %s\n}' % (rt(i), i, params(i), '\n    '.join(b)))
        m = []
        for _ in range(3):
            j = R.randrange(n)
            c = call(j, [], str(R.randint(2, 6)))
            m.append('    printf("=%s\\n", %s);' % (FMT[sg[j][0].k], c) if sg[j][0] else '    %s;\n    printf("|\\n");' % c)
        return main('\n'.join(m), '\n'.join(out) + '\n')

ESCAPES = [
 # every activation's variable stays reachable
 'int f(int n, int *up)\n{\n    int mine = n * %(a)d;\n    if (up) printf("%%d ", *up);\n    if (n == 0) return up ? *up : mine;\n    return f(n - 1, &mine);\n}\n',
 'int f(int n, int *up)\n{\n    int mine = n + %(a)d;\n    if (n == 0) { *up += 1; return *up; }\n    mine += *up;\n    return f(n - 1, n == 2 ? up : &mine);\n}\n',
 'int f(int n, int *p)\n{\n    printf("%%d ", *p);\n    if (n == 0) return *p;\n    *p += n;\n    return f(n - 1, &n);\n}\n',
 'struct L { int v; struct L *up; };\nint sum(struct L *l)\n{\n    int s = 0;\n    while (l) { printf("%%d,", l->v); s += l->v; l = l->up; }\n    return s;\n}\nint g(int n, struct L *up)\n{\n    struct L here;\n    here.v = n * %(a)d;\n    here.up = up;\n    if (n == 0) return sum(&here);\n    return g(n - 1, &here);\n}\nint f(int n, int *p)\n{\n    return g(n, 0) + *p;\n}\n',
 'int *keep[8];\nint f(int n, int *p)\n{\n    int x = n + *p;\n    keep[n & 7] = &x;\n    if (n == 0) { int s = 0; for (int i = 0; i < 3; i++) { printf("%%d ", *keep[i]); s += *keep[i]; } return s; }\n    return f(n - 1, p);\n}\n',
 'int f(int n, int *a)\n{\n    int b[3] = {n, n + %(a)d, a[0]};\n    printf("%%d%%d%%d ", a[0], b[1], b[2]);\n    if (n == 0) return a[1] + b[1];\n    return f(n - 1, n %% 2 ? b + 1 : b);\n}\n',
 'void add(int *p, int k)\n{\n    *p += k;\n}\nint f(int n, int *p)\n{\n    int t = n;\n    add(&t, %(a)d);\n    add(p, t);\n    printf("%%d %%d ", t, *p);\n    if (n == 0) return t;\n    return f(n - 1, p);\n}\n',
 'int last(int *p)\n{\n    return *p + 1;\n}\nint f(int n, int *p)\n{\n    int v = n * %(a)d + *p;\n    if (n > 0) return f(n - 1, &v);\n    return last(&v);\n}\n',
 'int use(int *a, int *b, int n)\n{\n    *a += 1; *b += 2;\n    printf("%%d %%d ", *a, *b);\n    return n ? use(b, a, n - 1) : *a - *b;\n}\nint f(int n, int *p)\n{\n    int u = %(a)d, v = n;\n    return use(&u, &v, n) + use(p, &u, 1);\n}\n',
 'int f(int n, int *p)\n{\n    int t = n;\n    int *q = p;\n    if (n %% 2) { int inner = n * 10; q = &inner; printf("%%d ", *q + *p); if (n > 0) return f(n - 1, q); }\n    return n > 0 ? f(n - 1, &t) : *p;\n}\n',
 'int f(int n, int *p)\n{\n    char c = n + 65;\n    char *q = &c;\n    if (n == 0) { printf("%%c%%d ", *q, *p); return c; }\n    *q += 1;\n    printf("%%c ", c);\n    return f(n - 1, p);\n}\n',
 'int walk(int **pp, int n)\n{\n    **pp += n;\n    printf("%%d ", **pp);\n    if (n == 0) return **pp;\n    return walk(pp, n - 1);\n}\nint f(int n, int *p)\n{\n    return walk(&p, n);\n}\n',
 'struct S { int a; long b[2]; };\nint f(int n, int *p)\n{\n    struct S s;\n    s.a = n; s.b[0] = *p; s.b[1] = n * 2;\n    if (n == 0) return s.a + (int)s.b[1] + *p;\n    printf("%%d ", s.a + (int)s.b[0]);\n    return f(n - 1, &s.a);\n}\n',
 'int strl(const char *s, int acc)\n{\n    if (*s == 0) return acc;\n    return strl(s + 1, acc + 1);\n}\nint f(int n, int *p)\n{\n    char b[6] = "abcde";\n    b[n & 3] = 0;\n    *p += strl(b, 0);\n    return n ? f(n - 1, p) : strl("four", *p);\n}\n',
]
def escapes(R):
    xs = R.sample(ESCAPES, 1)
    n = R.randint(2, 5)
    f = xs[0] % dict(a=R.randint(2, 9))
    return main('    int base = %d;\n    printf("= %%d\\n", f(%d, &base));\n    printf("%%d\\n", base);\n    printf("= %%d\\n", f(%d, &base));' % (R.randint(1, 50), n, R.randint(0, 6)), f)

LONG = [
 # (functions with N as the length, call, period)
 ('int f(int n, int a, int b)\n{\n    if (n == 0) return a * 10 + b;\n    return f(n - 1, b, a);\n}\n', 'printf("%d\\n", f(N, 1, 2));', 2),
 ('long f(char a, int n, short b, long c)\n{\n    if (n <= 0) return a * 10000L + b * 100L + c;\n    return f(c, n - 1, a, b);\n}\n'.replace('L ', ' '), 'printf("%ld\\n", f(3, N, 5, 7));', 3),
 ('int g;\nint f(long n)\n{\n    g = (g + 1) & 7;\n    if (n > 0) return f(n - 1);\n    return 0;\n}\n', 'f(N); printf("%d\\n", g);', 8),
 ('unsigned int f(unsigned int n, unsigned char x)\n{\n    if (n != 0) return f(n - 1, x + 64);\n    return x;\n}\n', 'printf("%u\\n", f(N, 3));', 4),
 ('int g;\nint f(int n, int a)\n{\n    if (n == 0) { g = a; return 1; }\n    switch (n % 3) {\n    case 0: return f(n - 1, a ^ 1);\n    case 1: return f(n - 1, a ^ 2);\n    default: return f(n - 1, a ^ 4);\n    }\n}\n', 'f(N, 8); printf("%d\\n", g);', 6),
 ('int gcd(int n, int a, int b)\n{\n    while (n > 0) {\n        if (n % 2) return gcd(n - 1, b, a ^ b);\n        return gcd(n - 1, a, b ^ 1);\n    }\n    return a * 100 + b;\n}\n', 'printf("%d\\n", gcd(N, 5, 9));', 12),
 ('double f(int n, double a, double b)\n{\n    if (n < 1) return a - b;\n    return f(n - 1, b, a);\n}\n', 'printf("%d\\n", (int)f(N, 7.5, 2.5));', 2),
 ('int f(int n, int *p, int *q)\n{\n    if (n == 0) return *p;\n    *p = *p ^ 1;\n    return f(n - 1, q, p);\n}\nint x = 4;\nint y = 8;\n', 'printf("%d\\n", f(N, &x, &y)); printf("%d %d\\n", x, y);', 4),
 ('int help(int x)\n{\n    return (x + 3) & 15;\n}\nint f(int n, int a)\n{\n    int t = help(a);\n    if (n == 0) return t;\n    else return f(n - 1, t);\n}\n', 'printf("%d\\n", f(N, 2));', 16),
 ('int f(int n, int a, int b, int c, int d, int e)\n{\n    if (!n) return a + b * 10 + c * 100 + d * 1000 + e * 10000;\n    return f(n - 1, e, a, b, c, d);\n}\n', 'printf("%d\\n", f(N, 1, 2, 3, 4, 5));', 5),
 ('int f(int n, int s)\n{\n    for (int i = 0; i < 2; i++) {\n        if (i == 1) return f(n - 1, s ^ i);\n        if (n <= 0) return s;\n    }\n    return -1;\n}\n', 'printf("%d\\n", f(N, 12));', 2),
]
def long_chain(k, n):
    f, c, per = LONG[k]
    short = n % per + 2 * per
    t = lambda m: main('    ' + c.replace('N', str(m)), f)
    return Case(t(n), [0, 2, 4, 6], None, 'long chain of self tail calls', spec_src=t(short))

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 6
    both = lambda: [0, 1, R.choice([2, 3, 4, 5, 6, 7])]
    cases = finding_cases(ctx)
    cases += [Case(HEAD + self_tail(R), both(), None, 'self tail calls') for _ in range(300 * k)]
    cases += [Case(Web().program(R), both(), None, 'tail calls of other functions') for _ in range(180 * k)]
    cases += [Case(escapes(R), both(), None, 'addresses of local variables') for _ in range(70 * k)]
    cases += [long_chain(i, n) for i in range(len(LONG)) for n in ([50000 + R.randrange(60)] if ctx.quick else [50000, 100001, 77777])]
    cases += random_programs(ctx, 40 * k, 'C05', [dict(calls=2.0, funs=(3, 6), stmts=3, depth=2, loops=0.5, budget=100)], cfgs=[0, 1])
    check_cases(ctx, cases)
    stacklog.check(ctx, [flat(R) for _ in range(40 * k)])
