"""Side effects: evaluation counts and order, with functions that print and lvalues that change."""
from .common import *
RULE = ('programs whose operands are calls that print a tag and return a value, in all positions where C fixes how often '
        'and in which order they are evaluated (&&, ||, ?:, comma, sizeof, compound assignment, ++/--, initialisers, '
        'conditions, arguments with one effect), nested at random; and random programs with effects in expressions. '
        'Non-trivial: at least 50 machine steps, distinct source.')

PRE = '''int n;
int g;
int a[8];
struct S { int x; long y; struct S *next; int arr[4]; };
struct S s;
struct S s2;
int e(int tag, int v)
{
    printf("<%d>", tag);
    n++;
    return v;
}
long el(int tag, long v)
{
    printf("[%d]", tag);
    n++;
    return v;
}
int *ep(int tag, int i)
{
    printf("(%d)", tag);
    n++;
    return &a[i];
}
struct S *es(int tag)
{
    printf("{%d}", tag);
    n++;
    return tag % 2 ? &s : &s2;
}
void ev(int tag)
{
    printf("!%d!", tag);
}
void show(void)
{
    printf(" n=%d g=%d a=%d,%d,%d,%d,%d s=%d,%ld,%d,%d\\n", n, g, a[0], a[1], a[2], a[3], a[4], s.x, s.y, s.arr[1], s2.x);
}
'''

class B:
    def __init__(self, R):
        self.R = R; self.tag = 0
    def t(self):
        self.tag += 1
        return self.tag
    # an expression of type int whose evaluation prints; only sequenced sub-effects
    def ex(self, d):
        R = self.R
        r = R.randrange(17) if d > 0 else 0
        v = R.choice([0, 0, 1, 1, 2, 3, -1])
        x = self.ex
        if r <= 1:
            return 'e(%d, %d)' % (self.t(), v)
        if r == 2:
            return '(%s && %s)' % (x(d - 1), x(d - 1))
        if r == 3:
            return '(%s || %s)' % (x(d - 1), x(d - 1))
        if r == 4:
            return '(%s ? %s : %s)' % (x(d - 1), x(d - 1), x(d - 1))
        if r == 5:
            return '(%s, %s)' % (x(d - 1), x(d - 1))
        if r == 6:
            return 'e(%d, %s)' % (self.t(), x(d - 1))
        if r == 7:
            return '(%s + (int)sizeof(%s))' % (x(d - 1), x(d - 1))
        if r == 8:
            return '(*ep(%d, %d) %s= %d)' % (self.t(), R.randrange(5), R.choice(['', '+', '-', '*', '|', '^', '&']), R.randint(1, 3))
        if r == 9:
            return '(a[%s & 3] %s= %d)' % (x(d - 1), R.choice(['', '+', '-', '|', '^']), R.randint(1, 3))
        if r == 10:
            return R.choice(['(*ep(%d, %d))++', '(*ep(%d, %d))--', '++(*ep(%d, %d))', '--(*ep(%d, %d))']) % (self.t(), R.randrange(5))
        if r == 11:
            return R.choice(['es(%d)->x++', '--es(%d)->x', '(es(%d)->x += 2)', '(int)(es(%d)->y -= 3)', '(es(%d)->arr[1] |= 5)',
                             '(int)es(%d)->y++']) % self.t()
        if r == 12:
            return '!%s' % x(d - 1)
        if r == 13:
            return '(%s %s %d)' % (x(d - 1), R.choice(['+', '-', '*', '<', '==', '>', '&']), R.randint(0, 3))
        if r == 14:
            return '(g = %s)' % x(d - 1)
        if r == 15:
            return '(n > %d ? %s : %s)' % (R.randint(0, 9), x(d - 1), x(d - 1))
        return '(int)el(%d, %s)' % (self.t(), x(d - 1))
    def cond(self, d):
        return self.ex(d)
    def stmt(self, d):
        R = self.R
        r = R.randrange(22)
        x = self.ex
        k = 'k%d' % self.t()
        if r == 0:
            return 'if (%s) ev(%d); else ev(%d);' % (x(d), self.t(), self.t())
        if r == 1:
            return 'int %s = 0; while (%s < %d && (%s, 1)) %s++;' % (k, k, R.randint(0, 3), x(d - 1), k)
        if r == 2:
            return 'for (int %s = %s; %s < %d; %s++) { %s; }' % (k, '(%s, 0)' % x(d - 1), k, R.randint(0, 3), k, x(d - 1))
        if r == 3:
            return 'int %s = 0; do { %s; } while (++%s < %d && %s);' % (k, x(d - 1), k, R.randint(1, 3), x(d - 1))
        if r == 4:
            return 'switch (%s) { case 0: ev(%d); case 1: ev(%d); break; default: ev(%d); }' % (x(d), self.t(), self.t(), self.t())
        if r == 5:
            return 'int %s = %s, %sb = %s; printf("=%%d,%%d", %s, %sb);' % (k, x(d), k, x(d - 1), k, k)
        if r == 6:
            return 'int %s[3] = {%s, 2, 3}; printf("=%%d", %s[0]);' % (k, x(d), k)
        if r == 7:
            return 'printf("=%%d", %s);' % x(d)
        if r == 8:
            return '*ep(%d, %d) %s= %d;' % (self.t(), R.randrange(5), R.choice(['', '+', '<<', '*']), R.randint(1, 2))
        if r == 9:
            return 'int %s = 3; %s = %s++ + 1; int *p%s = a; *p%s++ = 7; *++p%s = 8; printf("=%%d %%d", %s, (int)(p%s - a));' % ((k,) * 8)
        if r == 10:
            return 'int %s = 2; int *q%s = &%s; long r%s = (*q%s)++ ; r%s += --*q%s; printf("=%%d %%ld", %s, r%s);' % ((k,) * 9)
        if r == 11:
            return 'a[g & 3] = g++ ? 1 : 1;' if False else 'a[n & 3] += 5;'
        if r == 12:
            return 'for (int %s = 0, j%s = 5; %s, %s < j%s; %s++, j%s--) ev(%s);' % (k, k, 'e(%d, 0)' % self.t(), k, k, k, k, k)
        if r == 13:
            return '(void)%s;' % x(d)
        if r == 14:
            return 'if (%s && %s) { ev(%d); } else if (%s || %s) ev(%d);' % (x(d - 1), x(d - 1), self.t(), x(d - 1), x(d - 1), self.t())
        if r == 15:
            return 'int %s = (int)sizeof(%s) + (int)sizeof(a[e(%d, 1)]); printf("=%%d", %s);' % (k, x(d), self.t(), k)
        if r == 16:
            return 'while (%s) { ev(%d); break; }' % (x(d), self.t())
        if r == 17:
            return 'switch ((%s, 2)) { case 2: ev(%d); break; case 3: ev(9); }' % (x(d), self.t())
        if r == 18:
            return '%s ? %s : %s;' % (x(d), R.choice(['ev(%d)', '(void)e(%d, 1)', '(void)ep(%d, 1)']) % self.t(),
                                      R.choice(['ev(%d)', '(void)%d', '(e(%d, 1), ev(0))']) % self.t())
        if r == 19:
            return '*(%s) = 5;' % R.choice(['e(%d, 0) ? 0 : ep(%d, %d)', 'e(%d, 1) ? ep(%d, %d) : 0', 'e(%d, 0) ? (void *)0 : ep(%d, %d)',
                                            'e(%d, 1) ? ep(%d, %d) : (void*)0', 'e(%d, 1) ? ep(%d, %d) : a']) % (self.t(), self.t(), R.randrange(5))
        if r == 20:
            return '(%s)->x += 2;' % R.choice(['e(%d, 0) ? 0 : es(%d)', 'e(%d, 1) ? es(%d) : 0', 'e(%d, 3) ? es(%d) : &s2', 'e(%d, 0) ? &s : es(%d)']) % (self.t(), self.t())
        return '%s;' % x(d)

def program(R, nfun, nst, d):
    b = B(R)
    pre, calls = PRE, []
    for i in range(nfun):
        body = '\n'.join('    { %s }\n    show();' % b.stmt(d) for _ in range(nst))
        pre += 'void f%d(void)\n{\n%s\n}\n' % (i, body)
        calls.append('    f%d();' % i)
    return main('\n'.join(calls), pre)

KWS = [dict(depth=3, stmts=3, nest=1, assign_expr=0.6, incdec=0.8, call_io=0.9, calls=1.5, cond=0.8, comma=0.5, funs=(2, 3)),
       dict(depth=3, stmts=4, nest=2, assign_expr=0.5, incdec=0.6, call_io=0.5, calls=1.0, arrays=1, ptrs=0.8, funs=(1, 3), comma=0.4)]

def run(ctx):
    k = 1 if ctx.quick else 7
    cases = finding_cases(ctx)
    cases += [Case(program(ctx.rng, 3, 3, ctx.rng.randint(1, 3)), note='effects') for _ in range(220 * k)]
    cases += random_programs(ctx, 130 * k, 'C02', KWS)
    check_cases(ctx, cases)
