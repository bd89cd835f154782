"""Constant expressions have the value they have at run time."""
import re
from .common import *
RULE = ('random constant expressions over decimal, octal, hexadecimal, character, enumeration and floating constants of all types with every operator, '
        'as enumeration constants, sizes of arrays (automatic, static, members, parameters, of several dimensions), case labels of '
        'switches on every type and initialisers of static objects; the same expression evaluated at run time, with its constants in '
        'variables too; a table of every binary operator on operands of every type; chains of enumeration constants; unevaluated operands that have no value; templates. Non-trivial: at least 50 machine steps, distinct source.')

class K:
    """a constant expression: its text, the text with constants in variables, type, value"""
    __slots__ = ('s', 'v', 't', 'x')
    def __init__(self, s, v, t, x):
        self.s, self.v, self.t, self.x = s, v, t, x

class F64:
    c, k, bits, signed = 'double', 'f64', 64, True

class Exprs:
    def __init__(self, R):
        self.R, self.n, self.enums, self.decl, self.vars = R, 0, [], [], []
        self.vnames = {}
    def var(self, t, s):
        if (t.k, s) in self.vnames:
            return self.vnames[t.k, s]
        self.n += 1
        v = 'k%d' % self.n
        self.vnames[t.k, s] = v
        self.vars.append('%s %s = %s;' % (t.c, v, s))
        return v
    def leaf(self):
        R = self.R
        r = R.random()
        if r < .2 and self.enums:
            n, x = R.choice(self.enums)
            return K(n, n if R.random() < .6 else self.var(I32, n), I32, x)
        if r < .3:
            c = R.choice([("'a'", 97), ("'\\n'", 10), ("'\\0'", 0), ("'\\377'", -1), ("'\\x80'", -128), ("' '", 32), ("'\\''", 39), ("'9'", 57), ("'\\\\'", 92)])
            return K(c[0], self.var(BYK['i8'], c[0]), I32, c[1])
        x = R.choice([0, 1, 2, 3, 5, 7, 8, 10, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 1000, 32767, 65535, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 31) + 1,
                      (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, R.randint(0, 50), R.randint(0, 50), R.getrandbits(31), R.getrandbits(32), R.getrandbits(64)])
        if r < .6:
            x = R.randint(0, 40)
        f = R.random()
        if f < .5 and x < 1 << 63:
            s, t = str(x), I32 if x < 1 << 31 else I64
        else:
            s = '0x%x' % x if f < .75 else '0X%X' % x if f < .85 else '0%o' % x
            t = I32 if x < 1 << 31 else U32 if x < 1 << 32 else I64 if x < 1 << 63 else U64
        return K(s, self.var(t, s), t, x)
    def flt(self):
        s = self.R.choice(['0.0', '0.5', '1.0', '2.5', '.25', '3.', '1e3', '1.5e-3', '4294967296.0', '1e10', '0.1'])
        return K(s, self.var(F64, s), F64, float(s))
    def conv(self, x, t):
        return float(x) if t is F64 else wrap(x, t)
    def truth(self, d):
        """an operand that has to be true or false"""
        return self.expr(d, floats=True)
    def expr(self, d, floats=False):
        R = self.R
        for _ in range(60):
            e = self.expr1(d, floats)
            if e is not None:
                return e
        return self.leaf()
    def expr1(self, d, floats):
        R = self.R
        if d <= 0:
            return self.flt() if floats and R.random() < .4 else self.leaf()
        r = R.random()
        if r < .08:
            return self.leaf()
        if r < .28:
            op = R.choice(['-', '-', '+', '~', '~', '!'])
            a = self.expr(d - 1, op == '!' or floats and op != '~')
            if op == '~' and a.t is F64:
                return None
            if op == '!':
                t, x = I32, int(not a.x)
            elif a.t is F64:
                t, x = F64, -a.x if op == '-' else a.x
            else:
                t, x = a.t, {'-': -a.x, '+': a.x, '~': ~a.x}[op]
                if t.signed and not t.lo <= x <= t.hi:
                    return None
                x = wrap(x, t)
            sp = ' ' if R.random() < .3 or a.s[0] in '+-' else ''
            return K('%s%s%s' % (op, sp, self.par(a.s, 9)), '%s%s(%s)' % (op, sp, a.v), t, x)
        if r < .38:
            c, a, b = self.truth(d - 1), self.expr(d - 1), self.expr(d - 1)
            t = uac(a.t, b.t)
            x = wrap(a.x if c.x else b.x, t)
            if R.random() < .25:        # the other operand has no value
                bad = R.choice(['1 / 0', '5 % 0', '1 << 99', '1 / (2 - 2)', '1 % (0 * 3)'])
                if c.x:
                    b = K(bad, 'k0 / (k0 - k0)', I32, 0)
                else:
                    a = K(bad, 'k0 / (k0 - k0)', I32, 0)
                t = uac(a.t, b.t)
                x = wrap(a.x if c.x else b.x, t)
            return K('(%s ? %s : %s)' % (c.s, a.s, b.s), '(%s ? %s : %s)' % (c.v, a.v, b.v), t, x)
        if r < .48:
            op = R.choice(['&&', '||'])
            a, b = self.truth(d - 1), self.truth(d - 1)
            if R.random() < .25 and bool(a.x) == (op == '||'):
                b = K('1 / 0 ', 'k0 / (k0 - k0)', I32, 0)
            x = int(bool(a.x) and bool(b.x) if op == '&&' else bool(a.x) or bool(b.x))
            return K('%s %s %s' % (self.par(a.s), op, self.par(b.s)), '(%s) %s (%s)' % (a.v, op, b.v), I32, x)
        op = R.choice(BIN)
        fl = floats and op in '+-*/' or op in ('<', '>', '<=', '>=', '==', '!=') and R.random() < .3
        a, b = self.expr(d - 1, fl), self.expr(d - 1, fl) if op not in ('<<', '>>') else self.expr(0)
        return self.binary(op, a, b)
    def binary(self, op, a, b):
        if op in ('&&', '||'):
            return K('%s %s %s' % (self.par(a.s), op, self.par(b.s)), '(%s) %s (%s)' % (a.v, op, b.v), I32, int(bool(a.x) and bool(b.x) if op == '&&' else bool(a.x) or bool(b.x)))
        if a.t is F64 or b.t is F64:
            if op not in ('+', '-', '*', '/', '<', '>', '<=', '>=', '==', '!='):
                return None
            p, q = float(a.x), float(b.x)
            if op == '/' and q == 0:
                return None
            x = {'+': lambda: p + q, '-': lambda: p - q, '*': lambda: p * q, '/': lambda: p / q, '<': lambda: p < q, '>': lambda: p > q,
                 '<=': lambda: p <= q, '>=': lambda: p >= q, '==': lambda: p == q, '!=': lambda: p != q}[op]()
            t = F64 if op in '+-*/' else I32
            x = float(x) if t is F64 else int(x)
            if t is F64 and abs(x) > 1e30:
                return None
        else:
            q = apply(op, a.x, a.t, b.x, b.t)
            if q is None:
                return None
            x, t = q
        return K('%s %s %s' % (self.par(a.s), op, self.par(b.s)), '(%s) %s (%s)' % (a.v, op, b.v), t, x)
    def par(self, s, _=0):
        """parentheses; without them another, equally valid expression might result, so always unless it's a primary one"""
        if s.replace('_', '').isalnum() or re.fullmatch(r"'(\\.[0-9a-f]*|[^'\\])'", s):
            return s
        if s[0] == '(' and s[-1] == ')':
            depth = 0
            for i, c in enumerate(s):
                depth += (c == '(') - (c == ')')
                if depth == 0 and i < len(s) - 1:
                    break
            else:
                if "'" not in s:
                    return s
        return '(%s)' % s
    def small(self, d, lo, hi):
        """an integer expression with a value in lo .. hi"""
        R = self.R
        for _ in range(8):
            e = self.expr(d)
            if lo <= e.x <= hi:
                return e
        # bring it into range
        m = hi - lo + 1
        if e.x < 0:
            e = K('((%s) & 0x7fffffff)' % e.s, '((%s) & 0x7fffffff)' % e.v, uac(e.t, I32), e.x & 0x7fffffff)
        p = self.par(e.s)
        return K('%s %% %d + %d' % (p, m, lo), '(%s) %% %d + %d' % (e.v, m, lo), uac(e.t, I32), e.x % m + lo)

def wrapped(f):
    def g(R):
        E = Exprs(R)
        E.var(I32, '1')
        E.vnames[I32.k, '1'] = 'k1'
        E.vars[0] = 'int k0 = 1; int k1 = 1;'
        pre, body = f(R, E)
        return HEAD + pre[0] + '\n'.join(E.vars) + '\n' + pre[1] + 'int main(void)\n{\n' + body + '\n    return 0;\n}\n'
    return g

def pr(E, e):
    """the value, sign and size at run time, with and without constants"""
    return 'printf("%%ld %%d %%d %%ld %%d\\n", (long)(%s), (%s) < 0, (int)sizeof(%s), (long)(%s), (%s) < 0);' % (e.s, e.s, e.s, e.v, e.v)

@wrapped
def enums(R, E):
    pre, fs, calls = '', [], ''
    for i in range(R.randint(2, 3)):
        items, names = [], []
        for j in range(R.randint(1, 5)):
            n = 'E%d_%d' % (i, j)
            if items and R.random() < .3 and names[-1][1] < (1 << 31) - 1:
                items.append(n)
                names.append((n, names[-1][1] + 1, None))
            else:
                for _ in range(20):
                    e = E.expr(R.randint(1, 4))
                    if I32.lo <= e.x <= I32.hi:
                        break
                else:
                    e = E.leaf()
                    if not I32.lo <= e.x <= I32.hi:
                        e = K('5', '5', I32, 5)
                items.append('%s = %s' % (n, e.s))
                names.append((n, e.x, e))
            E.enums.append((n, names[-1][1]))     # a constant can be used in the rest of the enumeration
        comma = ',' if R.random() < .2 else ''
        d = 'enum %s{ %s%s };\n' % (R.choice(['', 'T%d ' % i]), ', '.join(items), '')
        body = ''
        for n, x, e in names:
            body += '    printf("%%d %%d\\n", %s, (int)sizeof(%s));\n' % (n, n)
            if e is not None and R.random() < .7:
                body += '    ' + pr(E, e) + '\n'
        fs.append('void t%d(void)\n{\n%s}\n' % (i, body))
        calls += '    t%d();\n' % i
        pre += d
    return (pre, ''.join(fs)), calls

@wrapped
def sizes(R, E):
    a, fs, calls = '', '', ''
    if R.random() < .6:
        for i in range(3):
            e = E.small(2, -50, 50)
            a += 'enum { C%d = %s };\n' % (i, e.s)
            E.enums.append(('C%d' % i, e.x))
    for i in range(R.randint(2, 4)):
        e = E.small(R.randint(1, 4), 1, R.choice([5, 20, 60]))
        t = R.choice(ITYS)
        k = R.random()
        body = ''
        if k < .25:
            a += '%s g%d[%s];\n' % (t.c, i, e.s)
            body = 'printf("%%d\\n", (int)sizeof(g%d)); g%d[(%s) - 1] = 9; printf("%%d\\n", (int)g%d[%s - 1]);' % (i, i, e.s, i, E.par(e.s))
        elif k < .45:
            e2 = E.small(2, 1, 4)
            body = '%s x[%s][%s]; %s y = 3; x[(%s) - 1][0] = 5; printf("%%d %%d %%d %%d\\n", (int)sizeof(x), (int)sizeof(x[0]), (int)x[(%s) - 1][0], (int)y);' % (t.c, e.s, e2.s, t.c, e.s, e.v)
        elif k < .65:
            a += 'struct S%d { char c; %s m[%s]; short z; };\n' % (i, t.c, e.s)
            body = 'struct S%d s; s.z = 4; s.m[(%s) - 1] = 1; s.c = 2; printf("%%d %%d %%d %%d\\n", (int)sizeof(s), (int)sizeof(s.m), s.z, s.c);' % (i, e.s)
        elif k < .8:
            body = 'static %s s[%s]; s[(%s) - 1]++; printf("%%d %%d\\n", (int)sizeof(s), (int)s[(%s) - 1]);' % (t.c, e.s, e.s, e.v)
        elif k < .9:
            body = 'typedef %s A%d[%s]; A%d q; A%d *p = &q; printf("%%d %%d\\n", (int)sizeof(A%d), (int)sizeof(*p));' % (t.c, i, e.s, i, i, i)
        else:
            body = '%s v[2][%s]; %s (*p)[%s] = v; printf("%%d %%d %%d\\n", (int)sizeof(*p), (int)((char *)(p + 1) - (char *)p), p + 1 == &v[1]);' % (t.c, e.s, t.c, e.s)
        fs += 'void t%d(void)\n{\n    %s\n    %s\n}\n' % (i, body, pr(E, e))
        calls += '    t%d();\n' % i
    return (a, fs), calls

@wrapped
def labels(R, E):
    a, fs, calls = '', '', ''
    for i in range(3):
        e = E.small(2, -50, 50)
        a += 'enum { C%d = %s };\n' % (i, e.s)
        E.enums.append(('C%d' % i, e.x))
    for i in range(R.randint(2, 3)):
        t = R.choice(ITYS)
        tt = promote(t)
        es, seen = [], set()
        for _ in range(R.randint(1, 4)):
            e = E.expr(R.randint(0, 3))
            if wrap(e.x, tt) not in seen:
                seen.add(wrap(e.x, tt))
                es.append(e)
        body = ''
        for j, e in enumerate(es):
            body += '    case %s: printf("%d ", 0)%s\n' % (e.s, 0, ';' if R.random() < .3 else '; break;') if False else '    case %s: printf("c%d ");%s\n' % (e.s, j, R.choice(['', ' break;', ' break;', ' break;']))
        df = R.random()
        if df < .5:
            body = body + '    default: printf("d ");\n' if df < .3 else '    default: printf("d ");\n' + body
        fs += 'void t%d(%s x)\n{\n    switch (%s) {\n%s    }\n}\n' % (i, t.c, R.choice(['x', 'x', 'x + 0', '(%s)x' % t.c]), body)
        for e in es + [E.expr(1) for _ in range(2)]:
            for v in [e.x] + ([e.x + 1, e.x ^ (1 << 32)] if R.random() < .3 else []):
                v = wrap(v, t)
                calls += '    t%d(%s);\n' % (i, lit(v)[0] if R.random() < .5 or v != e.x else e.v)
        for e in es:
            fs += 'void u%d_%d(void)\n{\n    %s\n}\n' % (i, es.index(e), pr(E, e))
            calls += '    u%d_%d();\n' % (i, es.index(e))
    return (a, fs), calls + '    printf("\\n");'

@wrapped
def inits(R, E):
    a, fs, calls = '', '', ''
    for i in range(R.randint(2, 4)):
        e = E.expr(R.randint(1, 4))
        t = R.choice(ITYS)
        if R.random() < .5:
            a += '%s g%d = %s;\n' % (t.c, i, e.s)
            fs += 'void t%d(void)\n{\n    %s l = %s;\n    printf("%%ld %%ld %%ld\\n", (long)g%d, (long)l, (long)(%s)(%s));\n    %s\n}\n' % (i, t.c, e.v, i, t.c, e.s, pr(E, e))
        else:
            e2 = E.expr(2)
            fs += 'void t%d(void)\n{\n    static %s s[] = {%s, %s};\n    printf("%%ld %%ld %%ld %%ld\\n", (long)s[0], (long)s[1], (long)(%s)(%s), (long)(%s)(%s));\n}\n' % (i, t.c, e.s, e2.s, t.c, e.v, t.c, e2.v)
        calls += '    t%d();\n' % i
    return (a, fs), calls

def op_table(pairs):
    """every one of the given operations (operator, left, right) as a constant expression, and at run time"""
    @wrapped
    def f(R, E):
        a, fs, calls, n = '', '', '', 0
        for op, l, r in pairs:
            x, y = (TABLE_OPS[i] for i in (l, r))
            lk, rk = (K(s, E.var(t, s), t, v) for s, t, v in (x, y))
            e = E.binary(op, lk, rk)
            if e is None:
                continue
            n += 1
            if isinstance(e.x, int) and I32.lo <= e.x <= I32.hi:
                a += 'enum { T%d = %s };\n' % (n, e.s)
                body = 'printf("%%d %%ld %%d\\n", T%d, (long)(%s), (%s) < 0);' % (n, e.v, e.v)
            else:
                # its value doesn't fit, so compare it at compile time with one of the operands
                a += 'enum { T%d = (%s) > %s, U%d = (%s) < %s, V%d = (%s) == (%s) };\n' % (n, e.s, lk.s, n, e.s, rk.s, n, e.s, e.s)
                body = 'printf("%%d%%d%%d %%d%%d\\n", T%d, U%d, V%d, (%s) > %s, (%s) < %s);' % (n, n, n, e.v, lk.v, e.v, rk.v)
            fs += 'void t%d(void)\n{\n    %s\n}\n' % (n, body)
            calls += '    t%d();\n' % n
        return (a, fs), calls
    return f

TABLE_OPS = [('2', I32, 2), ('(-1)', I32, -1), ('7', I32, 7), ('0x80000000', U32, 1 << 31), ('0xffffffff', U32, (1 << 32) - 1), ('4294967296', I64, 1 << 32),
             ('(-4294967297)', I64, -(1 << 32) - 1), ('0xffffffffffffffff', U64, (1 << 64) - 1), ('0x8000000000000000', U64, 1 << 63),
             ('2.0', F64, 2.0), ('2.5', F64, 2.5), ('(-1.0)', F64, -1.0), ('4294967296.0', F64, 4294967296.0)]

TEMPLATES = r'''
enum { A = (0x80000000 << 1) == 0, B = -1 > 0x80000000, C = (~0xF0000000) >> 4, D = (0xffffffff + 1) == 0, F = (1 ? -1 : 0xFFFFFFFF) > 0, G = 1 || 1 / 0, H = 0 && 1 / 0, I = 1.5 && 2, J = 0.0 || 0, K = !0.5, L = 0x8000000000000000 * 2 == 0, M = (0xFFFFFFFF - 0 + 2), N = -0xFFFFFFFF == 1, O = 5000000000 * 2 > 1 };
int main(void) { printf("%d %d %d %d %d %d %d %d %d %d %d %d %d %d\n", A, B, C, D, F, G, H, I, J, K, L, M, N, O); return 0; }
====
enum { A = -7 / 2, B = -7 % 2, C = 7 / -2, D = 7 % -2, E = -7 >> 1, F = -1 >> 31, G = ~0, H = -(-5), I = - -5, J = 1 - - 1, K = !0 + !5, L = 2147483647, M = -2147483647 - 1, N = 0x7fffffff, O = 017, P = '\xff', Q = 'A' + 1 };
int main(void) { printf("%d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d", A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q); return 0; }
====
enum { A, B, C = 5, D, E = -3, F, G, H = A, I, J = D + G * 2, K };
enum { L = K << 2, M = L | 1, N = M ^ L, O };
int main(void) { printf("%d %d %d %d %d %d %d %d %d %d %d %d %d %d %d", A, B, C, D, E, F, G, H, I, J, K, L, M, N, O); return 0; }
====
enum { A = 7 & 3 == 3, B = 1 | 2 ^ 3 & 4, C = 1 << 2 + 1, D = 10 - 4 - 3, E = 100 / 10 / 5, F = 2 + 3 * 4 % 5, G = 1 < 2 < 1, H = 5 > 4 > 3, I = 1 ? 2 : 0 ? 3 : 4, J = 0 ? 1 : 0 ? 3 : 4, K = 1 == 1 != 0, L = 1 || 0 && 0, M = ~1 & 7, N = -2 + 3, O = !1 == 0, P = 16 >> 2 >> 1, Q = 6 ^ 3 | 8 };
int main(void) { printf("%d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d", A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q); return 0; }
====
enum { N = 3 };
int a[N][N * 2][(N > 2) + 1];
struct S { char c[N + 1], d[N - 1][N]; } s;
int f(int x[N * 100]) { return (int)sizeof(x); }
int main(void) { int b[sizeof(a) / sizeof(a[0])]; enum { N = 7 }; char c[N]; printf("%d %d %d %d %d %d", (int)sizeof(a), (int)sizeof(a[0][0]), (int)sizeof(s), (int)sizeof(c), (int)sizeof(b), f(b)); return 0; }
====
int main(void) { int i; enum { A = 2, B = A * A, C = B - A * 3 }; for (i = -3; i < 6; i++) switch (i) { case A: printf("A"); case B: printf("B"); break; case C: printf("C"); break; case A + B - 1: printf("D"); default: printf("."); case B - (C < 0): printf("E"); } return 0; }
====
int f(unsigned char c) { switch (c) { case -1: return 1; case 255: return 2; case 'A': return 3; case 256: return 4; } return 5; }
int g(unsigned int u) { switch (u) { case -1: return 1; case 255: return 2; case 4294967296: return 3; case 1 - 3: return 4; } return 5; }
int h(long l) { switch (l) { case -1: return 1; case 0xffffffff: return 2; case 4294967296: return 3; case ~0 - 1: return 4; case 0x8000000000000000: return 6; } return 5; }
int k(int i) { switch (i) { case 4294967295: return 1; case 0x100000002: return 2; case 0x80000000: return 3; } return 5; }
int main(void) { printf("%d%d%d%d ", f(255), f(65), f(0), f(254)); printf("%d%d%d%d ", g(-1), g(255), g(0), g(-2)); printf("%d%d%d%d%d ", h(-1), h(4294967295), h(4294967296), h(-2), h(-9223372036854775807 - 1)); printf("%d%d%d%d", k(-1), k(2), k(-2147483647 - 1), k(0)); return 0; }
====
enum { A = 1 ? 2 : 1 / 0, B = 0 ? 1 % 0 : 3, C = 0 && 1 / 0, D = 1 || 1 << 99, E = (1 || 1 / 0) && !(0 && 5 % 0), F = 0 ? 1 : 1 ? 7 : 1 / 0 };
int x[1 ? 3 : 1 / 0];
int main(void) { printf("%d %d %d %d %d %d %d", A, B, C, D, E, F, (int)sizeof(x)); return 0; }
====
enum { A = 1.5 < 2, B = 0.1 + 0.2 == 0.3, C = 3 / 2.0 > 1, D = 1e10 > 0xffffffff, E = -0.5 < 0, F = 9007199254740993 == 9007199254740992.0, G = !0.0, H = 0.0 ? 3 : 4, I = 18446744073709549568.0 < 0xffffffffffffffff, J = -1 < 0.0 };
int main(void) { printf("%d %d %d %d %d %d %d %d %d %d", A, B, C, D, E, F, G, H, I, J); return 0; }
====
unsigned char a = 300 - 1, b = -1;
short c = 0x12345, d = 65535;
unsigned int e = -1, f = 1 - 2 * 3;
long g = 0xffffffff + 1, h = 4294967295 + 1, i = -0x80000000, j = -2147483648;
char k = 'a' + 100, l = '\377' == -1;
unsigned long m = -1, n = ~0, o = ~0x0 ;
int main(void) { printf("%d %d %d %d %u %u %ld %ld %ld %ld %d %d %lu %lu %lu", a, b, c, d, e, f, g, h, i, j, k, l, m, n, o); return 0; }
'''.split('====\n')

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 8
    cases = finding_cases(ctx)
    cases += [Case(HEAD + t, None, None, 'templates') for t in TEMPLATES]
    ops = [(o, l, r) for o in list(dict.fromkeys(BIN + ['&&', '||'])) for l in range(len(TABLE_OPS)) for r in range(len(TABLE_OPS))]
    R.shuffle(ops)
    cases += [Case(op_table(c)(R), None, None, 'operators') for c in chunks(ops, 25)]
    for f, n in ((enums, 70), (sizes, 60), (labels, 60), (inits, 35)):
        cases += [Case(f(R), None, None, n_) for n_ in [{enums: 'enumerations', sizes: 'array sizes', labels: 'case labels', inits: 'initialisers'}[f]] for _ in range(n * k)]
    check_cases(ctx, cases)
