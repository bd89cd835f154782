"""Names refer to the declaration that is in scope."""
from .common import *
RULE = ('random nestings of blocks, loops, branches, switches and functions in which a few names are declared over and over as variables of '
        'different types, arrays, parameters, enumeration constants, structures, tags, members and labels; everything visible is printed, with its size, and '
        'modified at many points before, inside and after each block; jumps into and out of them; typedefs of types that are '
        'hidden later; templates of the corner cases. Non-trivial: at least 50 machine steps, distinct source.')
NAMES = ['a', 'b', 'c', 'd']

class Prog:
    def __init__(self, R):
        self.R, self.n, self.budget = R, 0, R.randint(14, 26)
        self.labels = 0
    def val(self):
        self.n += 1
        return self.n % 100 + 1
    def show(self, env):
        R = self.R
        es, fs = [], []
        for x in R.sample(NAMES, R.randint(1, 4)):
            k = env['o'].get(x)
            if k is None:
                continue
            if k[0] == 'var':
                es.append(x); fs.append(FMT[k[1].k])
                if R.random() < .5:
                    es.append('(int)sizeof(%s)' % x); fs.append('%d')
            elif k[0] == 'const':
                es.append(x); fs.append('%d')
            elif k[0] == 'arr':
                es += ['%s[1]' % x, '(int)sizeof(%s)' % x]; fs += ['%d', '%d']
            elif k[0] == 'st':
                es += ['%s.%s' % (x, k[1]), '(int)sizeof(%s)' % x]; fs += ['%d', '%d']
            elif k[0] == 'fun' and k[2]:
                es.append('%s(%d)' % (x, self.R.randint(1, 5))); fs.append('%d')
        for t in R.sample(['S', 'E'], R.randint(0, 2)):
            if t in env['t']:
                es.append('(int)sizeof(%s %s)' % (env['t'][t][0], t)); fs.append('%d')
        for t in env['y']:
            if R.random() < .4:
                es.append('(int)sizeof(%s)' % t); fs.append('%d')
        if not es:
            return 'printf("- ");'
        return 'printf("%s ", %s);' % (' '.join(fs), ', '.join(es))
    def decl(self, env, mine, top=False):
        """a declaration; mine: the names declared in this block"""
        R = self.R
        r = R.random()
        free = [x for x in NAMES if ('o', x) not in mine]
        if r < .2 and ('t', 'S') not in mine:
            mine.add(('t', 'S'))
            kw = R.choice(['struct', 'struct', 'union'])
            m = R.choice(NAMES + ['S'])
            env['t']['S'] = (kw, m)
            d = '%s S { %s %s; %s z[%d]; }' % (kw, R.choice(ITYS[:6]).c, m, R.choice(ITYS).c, R.randint(1, 5))
            if free and R.random() < .6:
                x = R.choice(free)
                mine.add(('o', x))
                env['o'][x] = ('st', m)
                return '%s %s; %s.%s = %d;' % (d, x, x, m, self.val()) if not top else '%s %s;' % (d, x)
            return d + ';'
        if r < .3 and len(free) > 1:
            xs = R.sample(free, R.randint(1, 2))
            for x in xs:
                mine.add(('o', x))
                env['o'][x] = ('const',)
            tag = ''
            if ('t', 'E') not in mine and R.random() < .7:
                mine.add(('t', 'E'))
                env['t']['E'] = ('enum',)
                tag = 'E '
            return 'enum %s{ %s };' % (tag, ', '.join('%s = %d' % (x, self.val() * R.choice([1, -1, 1000])) for x in xs))
        if r < .37:
            self.n += 1
            t = 'Ty%d' % self.n
            env['y'].append(t)
            if 'S' in env['t'] and R.random() < .6:
                return 'typedef %s S %s;' % (env['t']['S'][0], t)
            return 'typedef %s %s;' % (R.choice(ITYS).c, t)
        if not free:
            return self.show(env) if not top else ''
        x = R.choice(free)
        mine.add(('o', x))
        r = R.random()
        if r < .15:
            env['o'][x] = ('arr',)
            return 'int %s[%d]%s;' % (x, R.randint(2, 6), '' if top else ' = {0, %d}' % self.val())
        if r < .3 and 'S' in env['t'] and env['t']['S'][0]:
            env['o'][x] = ('st', env['t']['S'][1])
            return '%s S %s;%s' % (env['t']['S'][0], x, '' if top else ' %s.%s = %d;' % (x, env['t']['S'][1], self.val()))
        t = R.choice(ITYS)
        init = str(self.val())
        if not top and R.random() < .35:
            # another visible name, or the size of this one
            o = [y for y in NAMES if y != x and env['o'].get(y, ('',))[0] in ('var', 'const')]
            init = R.choice(['%s + %d' % (R.choice(o), self.val())] if o else []) if o else 'sizeof(%s)' % x
        elif not top and R.random() < .1:
            init = 'sizeof(%s)' % x
        env['o'][x] = ('var', t)
        st = 'static ' if not top and init.isdigit() and R.random() < .15 else ''
        return '%s%s %s = %s;' % (st, t.c, x, init)
    def modify(self, env):
        R = self.R
        xs = [x for x in NAMES if env['o'].get(x, ('',))[0] in ('var', 'arr', 'st')]
        if not xs:
            return self.show(env)
        x = R.choice(xs)
        k = env['o'][x]
        l = x if k[0] == 'var' else x + '[1]' if k[0] == 'arr' else x + '.' + k[1]
        return '%s %s %d;' % (l, R.choice(['=', '=', '^=', '|=']), self.val())
    def copy(self, env):
        return dict(o=dict(env['o']), t=dict(env['t']), y=list(env['y']))
    def block(self, env, ind, depth, mine=None):
        R = self.R
        env = self.copy(env)
        mine = set() if mine is None else mine
        out = []
        for _ in range(R.randint(2, 6)):
            if self.budget <= 0:
                break
            self.budget -= 1
            r = R.random()
            if r < .3:
                out.append(ind + self.decl(env, mine))
            elif r < .5:
                out.append(ind + self.show(env))
            elif r < .65:
                out.append(ind + self.modify(env))
            elif depth:
                out += self.nested(env, ind, depth)
        if R.random() < .7 or not out:
            out.append(ind + self.show(env))
        return out
    def nested(self, env, ind, depth):
        R = self.R
        r = R.randrange(9)
        sub = lambda e=env: self.block(e, ind + '    ', depth - 1)
        w = lambda h, b, t='': [ind + h, ind + '{'] + b + [ind + '}' + t]
        self.n += 1
        i = 'i%d' % self.n
        if r < 3:
            return [ind + '{'] + sub() + [ind + '}']
        if r == 3:
            x = R.choice(NAMES)
            e = self.copy(env)
            t = R.choice([BYK[x] for x in ('i16', 'i32', 'i64', 'u8')])
            e['o'][x] = ('const_',)           # not modified in the body
            b = self.block(e, ind + '    ', depth - 1)
            return w('for (%s %s = 0; %s < %d; %s++)' % (t.c, x, x, R.randint(1, 2), x), b)
        if r == 4:
            return w('if (%d)' % R.randint(0, 1), sub()) + w('else', sub())
        if r == 5:
            return [ind + '{', ind + '    int %s = 0;' % i] + ['    ' + l for l in w('while (%s++ < %d)' % (i, R.randint(1, 2)), sub())] + [ind + '}']
        if r == 6:
            return [ind + 'switch (%d)' % R.randint(1, 3), ind + '{'] + [ind + 'case 1:', ind + '    {'] + sub() + [ind + '    }', ind + '    break;', ind + 'default:', ind + '    {'] + sub() + [ind + '    }', ind + '}']
        if r == 7:
            # a jump out of the block, over what it declares; labels have names of their own
            l = 'L%d' % self.n
            return [ind + '{', ind + '    {'] + sub() + [ind + '    }', ind + '    goto %s;' % l, ind + '    {'] + sub() + [ind + '    }', ind + '}', ind + l + ':', ind + self.show(env)]
        return [ind + 'do', ind + '{'] + sub() + [ind + '} while (0);']
    def function(self, name, env):
        R = self.R
        e = self.copy(env)
        mine = set()
        ps = []
        for x in R.sample(NAMES, R.randint(1, 3)):
            t = R.choice(ITYS)
            ps.append('%s %s' % (t.c, x))
            mine.add(('o', x))
            e['o'][x] = ('var', t)
        self.budget = R.randint(5, 10)
        b = self.block(e, '    ', 2, mine)
        ret = ps[0].split()[-1]
        return 'int %s(%s)\n{\n%s\n    return %s;\n}\n' % (name, ', '.join(ps), '\n'.join(b), ret), len(ps)
    def program(self):
        R = self.R
        env = dict(o={}, t={}, y=[])
        out = []
        mine = set()
        for _ in range(R.randint(2, 5)):
            d = self.decl(env, mine, True)
            if d:
                out.append(d)
        calls = []
        for j in range(R.randint(1, 3)):
            name = 'f%d' % j
            f, n = self.function(name, env)
            out.append(f)
            calls.append('    printf("%%d\\n", %s(%s));' % (name, ', '.join(str(R.randint(1, 50)) for _ in range(n))))
            if R.random() < .5:
                d = self.decl(env, mine, True)
                if d:
                    out.append(d)
        # a function that has the name of a variable elsewhere
        free = [x for x in NAMES if ('o', x) not in mine]
        if free:
            x = R.choice(free)
            env['o'][x] = ('fun', x, True)
            out.append('int %s(int %s)\n{\n    return %s * 2;\n}' % (x, x, x))
        self.budget = R.randint(10, 18)
        b = self.block(env, '    ', 3)
        return HEAD + '\n'.join(out) + '\nint main(void)\n{\n%s\n%s\n    return 0;\n}\n' % ('\n'.join(b), '\n'.join(calls))

TEMPLATES = '''int x = 1;
int main(void) { int y = x; int x = 2; { int z = x; int x = 3; printf("%d %d %d ", x, y, z); } printf("%d", x); return 0; }
====
enum { A = 1, B };
int main(void) { int b = A + B; enum { A = 5 }; { int A = 7; b += A; } { enum { B = 9, A }; b += A * 100 + B; } printf("%d %d %d", b, A, B); return 0; }
====
int A = 4;
int get(void) { return A; }
int main(void) { printf("%d ", A); enum { A = 5 }; { enum E { A = 6 }; int q = A; { int A = 2; A++; q += A; } printf("%d ", q); } printf("%d %d", A, get()); return 0; }
====
struct S { int a; };
int main(void) { struct S o; o.a = 1; struct S { char c[9]; } s; { struct S { long z; } s; printf("%d ", (int)sizeof(s)); struct S *p = &s; p->z = 5; printf("%ld ", s.z); } struct S *p = &s; p->c[1] = 4; printf("%d %d %d %d", (int)sizeof(struct S), (int)sizeof(s), (int)sizeof(o), s.c[1]); return 0; }
====
int f(int x) { { int x = 5; printf("%d ", x); x++; } x += 10; { long x = x = 3; printf("%d ", (int)sizeof(x)); } return x; }
int main(void) { printf("%d %d", f(3), f(4)); return 0; }
====
int main(void) { for (int i = 0; i < 2; i++) { int i = 7; printf("%d ", i); i = 100; } int i = 9; for (int i = 0; i < 1; i++) printf("%d ", i); for (long i = 3; i < 5; i++) printf("%d ", (int)sizeof(i)); printf("%d", i); return 0; }
====
int f(void) { return 3; }
int g(int f) { return f + 1; }
int main(void) { { int f = 4; printf("%d ", f); } printf("%d %d ", f(), g(f())); int f = 8; printf("%d", f + g(f)); return 0; }
====
int x = 3;
int main(void) { char x = sizeof(x); printf("%d ", x); { long x = sizeof(x); printf("%ld ", x); } if (x) { short x[x]; printf("%d", (int)sizeof(x)); } return 0; }
====
int main(void) { int a = 1; if (a) { int a = 2; a++; printf("%d ", a); } else { int a = 4; printf("%d ", a); } switch (a) { int a; case 1: a = 6; printf("%d ", a); } printf("%d", a); return 0; }
====
int main(void) { int x = 1, n = 0; while (x < 4) { int y = x; int x = y * 10; x++; printf("%d ", x); if (n++ > 1) break; } do { int n = 5; n++; } while (n < 1); printf("%d %d", x, n); return 0; }
====
typedef int I;
typedef I J;
typedef struct S { J v; I *p; } *P;
int main(void) { struct S s; P q = &s; I i = 4; q->v = 3; q->p = &i; { struct S { long a; long b; } s; s.a = 1; printf("%d %d %d ", (int)sizeof(s), (int)sizeof(*q), q->v); } printf("%d %d", *q->p, (int)sizeof(struct S)); return 0; }
====
int x;
int g(void) { return x++; }
int main(void) { int x = 5; x++; { int y = g(); x += y; } printf("%d %d %d", g(), x, g() > 1); return 0; }
====
int main(void) { enum E { X, Y }; { enum E { Z = 9, X }; enum E q = X; printf("%d %d %d ", q, Y, Z); } enum E q = Y; printf("%d %d", q, X); return 0; }
====
int a(int a) { return a ? a * 2 : 7; }
int b(int b) { int c = a(b); { int a = c; c = a + b; } return a(c); }
int main(void) { int c = b(2); { int b = 3; c += a(b); { int a = b; c += a; } } printf("%d %d", c, b(0)); return 0; }
====
struct a { int a; } a;
union b { char a; long b; } b;
int main(void) { a.a = 3; b.b = 0; b.a = 4; { struct a b; b.a = a.a; union b { short a; } a; a.a = b.a + 1; printf("%d %d %d %d ", a.a, b.a, (int)sizeof(a), (int)sizeof(b)); } a: a.a++; if (a.a < 6) goto a; printf("%d %d %d", a.a, b.a, (int)sizeof(union b)); return 0; }
====
int v = 1;
void show(void) { printf("%d ", v); }
int main(void) { show(); v = 2; int v = 10; show(); v++; { v++; int v = 50; show(); v--; printf("%d ", v); } printf("%d ", v); show(); return 0; }
====
int fact(int n) { if (n < 2) { int n = 1; return n; } { int m = n - 1; { int n = fact(m); m = n; } return n * m; } }
int main(void) { int n = 5; printf("%d %d", fact(n), n); return 0; }
====
int main(void) { int i = 0; { goto in; } { int i = 40; in: i = 20; printf("%d ", i); } for (;;) { int i = 3; if (i) break; } printf("%d", i); return 0; }
====
struct L { struct L *next; int v; };
int main(void) { struct L o; o.next = &o; o.v = 2; { struct M { struct L *p; } m; m.p = &o; struct L { char q; struct L *n; } l; l.q = 7; l.n = &l; printf("%d %d %d ", m.p->v, l.n->q, (int)sizeof(struct L)); } printf("%d %d", o.next->next->v, (int)sizeof(struct L)); return 0; }
====
int f(int a, int b) { enum { c = 3 }; static int d = c * 2; d += a; { int a = b, b = a; static int d = 100; d += b; printf("%d %d %d ", a, b, d); } return d + c; }
int main(void) { int c = f(1, 2); c += f(3, 4); printf("%d", c); return 0; }
====
int main(void) { int a = 1; { int b = a; int a = b + 1; { int b = a; int a = b + 1; { int b = a; int a = b + 1; printf("%d%d ", a, b); } printf("%d%d ", a, b); } printf("%d%d ", a, b); } printf("%d", a); return 0; }
====
void *w = &w;
long z = sizeof(z);
int main(void) { void *p = &p, **q = p; printf("%d %d %ld ", p == &p, w == &w, z); struct N { struct N *me; char c; } *n = 0, m = {&m, sizeof(*n)}; char c = 1, d = (c = 5, c + 1), *e = &c; printf("%d %d %d %d", d, *e, m.c, m.me == &m); return 0; }
====
int f(int n) { int g = n ? f(n - 1) : (g = 2); { int n = g + 1, m = n; g = m; } return g; }
int main(void) { int x = 3; { int *x1 = &x; int y = x, x = y * 2 + *x1; printf("%d %d ", x, y); } printf("%d %d", f(3), x); return 0; }
====
typedef char C;
C c = 65;
int f(C c) { C d = c; { C c = d + 1; return c; } }
int main(void) { C a[3] = {f(c), c}, *p = a; struct { C c; C C1; } s = {1, 2}; printf("%d %d %d %d %d", p[0], a[1], (int)sizeof(a), s.c + s.C1, (int)sizeof(C *)); return 0; }
'''.split('====\n')

KWS = [dict(funs=(1, 3), stmts=6, depth=2, loops=1, structs=.5, arrays=.5, globals=(1, 4), budget=110)]

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 7
    cases = finding_cases(ctx)
    cases += [Case(HEAD + t, None, None, 'templates') for t in TEMPLATES]
    cases += [Case(Prog(R).program(), None, None, 'scopes') for _ in range(210 * k)]
    cases += random_programs(ctx, 20 * k, 'C12', KWS)
    check_cases(ctx, cases)
