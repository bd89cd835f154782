"""Floating-point arithmetic is IEEE 754, with the conversions of C."""
import math, struct
from .common import *
TECHNIQUE = 'TLA+/TLC trace validation: the real compiler and runtime against spec/CSem.tla with the exact IEEE 754 arithmetic of spec/Flt.tla'
RULE = ('constants with up to 40 digits and exponents over the whole range and at rounding boundaries; every operator on pairs of edge values of '
        'double, float and every integer type (signed zeros, subnormals, the largest and smallest numbers, infinities, NaNs in comparisons, '
        'ties to even, the limits of the integer types); conversions by assignment, cast, initialiser, argument, return, compound assignment, '
        '?:, ++/--; truth values; arrays, members and pointers; random expressions. Results are printed as bit patterns. '
        'Non-trivial: at least 50 machine steps, distinct source.')
BITS = '''union D { double d; unsigned long u; };
union F { float d; unsigned int u; };
void D(double d)
{
    union D x;
    x.d = d;
    printf("%lu\\n", x.u);
}
void F(float d)
{
    union F x;
    x.d = d;
    printf("%u\\n", x.u);
}
'''
class Fl:
    def __init__(self, k, c, show):
        self.k, self.c, self.show, self.signed = k, c, show, True
DBL, FLT = Fl('f64', 'double', 'D'), Fl('f32', 'float', 'F')
def r32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)
def isf(t):
    return isinstance(t, Fl)
def to(x, ft, t):
    """the value of x converted to t, None if that is not defined"""
    if t is DBL:
        return float(x) if not isf(ft) else x
    if t is FLT:
        if not isf(ft):        # once rounded: by way of a double would be twice
            return i2f32(x)
        return r32(x)
    if isf(ft):
        if math.isnan(x) or math.isinf(x) or not t.lo <= int(x) <= t.hi:
            return None
        return int(x)
    return wrap(x, t)
def i2f32(n):
    s, m = (-1 if n < 0 else 1), abs(n)
    k = max(m.bit_length() - 24, 0)
    q, r = m >> k, m & ((1 << k) - 1)
    if k and (r > 1 << k - 1 or r == 1 << k - 1 and q & 1):
        q += 1
    return float(s * (q << k))
def common(a, b):
    if a is DBL or b is DBL:
        return DBL
    if a is FLT or b is FLT:
        return FLT
    return uac(a, b)
def fop(op, x, tx, y, ty):
    """value and type, or None"""
    if not isf(tx) and not isf(ty):
        return apply(op, x, tx, y, ty)
    t = common(tx, ty)
    x, y = to(x, tx, t), to(y, ty, t)
    if op in ('<', '>', '<=', '>=', '==', '!='):
        return int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]), I32
    if op not in '+-*/':
        return None
    try:
        if op == '/':
            if y == 0:
                z = math.nan if x == 0 or math.isnan(x) else math.copysign(math.inf, x) * math.copysign(1, y)
            else:
                z = x / y
        else:
            z = {'+': x + y, '-': x - y, '*': x * y}[op]
    except OverflowError:
        z = math.inf
    return (r32(z) if t is FLT else z), t     # a double has enough digits for the operations on floats

# (expression, value) of a double
DV = [('0.0', 0.0), ('-0.0', -0.0), ('1.0', 1.0), ('-1.0', -1.0), ('0.5', .5), ('1.5', 1.5), ('2.5', 2.5), ('-2.5', -2.5), ('0.1', .1), ('0.2', .2), ('3.0', 3.0),
      ('1e16', 1e16), ('9007199254740992.0', 2.0**53), ('9007199254740991.0', 2.0**53 - 1), ('1.0000000000000002', 1 + 2.0**-52), ('0.9999999999999999', 1 - 2.0**-53),
      ('4.9e-324', 5e-324), ('2.2250738585072014e-308', 2.0**-1022), ('2.225073858507201e-308', 2.225073858507201e-308), ('1.7976931348623157e308', 1.7976931348623157e308),
      ('(1.0 / 0.0)', math.inf), ('(-1.0 / 0.0)', -math.inf), ('1e-310', 1e-310), ('1e300', 1e300), ('-1e-300', -1e-300), ('16777217.0', 16777217.0), ('3.4028234663852886e38', 3.4028234663852886e38),
      ('3.4028235677973366e38', 3.4028235677973366e38), ('1.401298464324817e-45', 2.0**-149), ('7.006492321624085e-46', 2.0**-150), ('7.1e-46', 7.1e-46), ('1.1754943508222875e-38', 2.0**-126),
      ('2147483647.0', 2147483647.0), ('2147483648.0', 2.0**31), ('-2147483648.0', -2.0**31), ('-2147483649.0', -2.0**31 - 1), ('4294967295.0', 2.0**32 - 1), ('4294967296.0', 2.0**32),
      ('9223372036854775807.0', 2.0**63), ('9223372036854774784.0', 2.0**63 - 1024), ('-9223372036854775808.0', -2.0**63), ('18446744073709549568.0', 2.0**64 - 2048), ('18446744073709551616.0', 2.0**64),
      ('127.9', 127.9), ('-128.9', -128.9), ('255.9', 255.9), ('-0.9', -.9), ('32767.99', 32767.99), ('65535.5', 65535.5), ('4294967295.9', 4294967295.9), ('123456789.0', 123456789.0), ('1e22', 1e22), ('0.3333333333333333', 1 / 3)]
FV = [('0.0', 0.0), ('-0.0', -0.0), ('1.0', 1.0), ('-1.0', -1.0), ('0.5', .5), ('1.5', 1.5), ('0.1', .1), ('0.3', .3), ('16777216.0', 2.0**24), ('16777215.0', 2.0**24 - 1), ('8388609.0', 8388609.0), ('1.00000012', 1 + 2.0**-23),
      ('0.99999994', 1 - 2.0**-24), ('1.4e-45', 1.4e-45), ('1.1754943508222875e-38', 2.0**-126), ('1.17549421e-38', 1.17549421e-38), ('3.4028234663852886e38', 3.4028234663852886e38),
      ('(1.0 / 0.0)', math.inf), ('(-1.0 / 0.0)', -math.inf), ('1e-40', 1e-40), ('1e30', 1e30), ('-1e-30', -1e-30), ('2147483648.0', 2.0**31), ('2147483520.0', 2147483520.0), ('-2147483648.0', -2.0**31), ('4294967040.0', 4294967040.0),
      ('4294967296.0', 2.0**32), ('9223371487098961920.0', 9223371487098961920.0), ('9223372036854775808.0', 2.0**63), ('-9223372036854775808.0', -2.0**63), ('18446742974197923840.0', 18446742974197923840.0),
      ('127.9', 127.9), ('-128.9', -128.9), ('255.5', 255.5), ('-0.75', -.75), ('3.0', 3.0), ('7.0', 7.0), ('33554432.0', 2.0**25), ('33554433.0', 2.0**25 + 1), ('33554435.0', 2.0**25 + 3)]

def rand_const(R):
    r = R.random()
    if r < .3:          # many digits
        n = R.randint(1, 40)
        d = ''.join(R.choice('0123456789') for _ in range(n))
        k = R.randint(0, n)
        s = (d[:k] or '0') + '.' + d[k:]
    elif r < .5:        # close to the middle of two doubles or two floats
        p = R.choice([53, 24])
        m = R.getrandbits(p - 1) | 1 << p - 1
        s = str(2 * m + 1 if R.random() < .6 else 2 * m) + R.choice(['.0', '.', '.000000000000000000001', '.99999', 'e0'])
    elif r < .6:
        return repr(struct.unpack('<d', struct.pack('<Q', R.getrandbits(63) % 0x7ff0000000000000))[0]).replace('e+', 'e')
    else:
        s = '%d.%d' % (R.randint(0, 9), R.getrandbits(R.choice([4, 20, 50])))
    if R.random() < .5 and 'e' not in s:
        s += R.choice('eE') + R.choice(['', '+', '-']) + str(R.choice([0, 1, 2, 5, 10, 22, 23, 30, 37, 38, 39, 44, 45, 46, 100, 200, 290, R.randint(0, 300)]))
    return s

def value(R, t):
    """an expression of any type for an edge value of type t, and the value"""
    if t is DBL:
        r = R.random()
        if r < .65:
            return R.choice(DV)
        s = rand_const(R)
        return s, float(s)
    if t is FLT:
        if R.random() < .65:
            s, v = R.choice(FV)
        else:
            s = rand_const(R)
            v = float(s)
        return s, r32(v)
    r = R.random()
    if t.bits >= 32 and r < .4:      # where rounding matters
        p = R.choice([53, 24]) if t.bits == 64 else 24
        b = R.randint(p, t.bits - 1)
        v = (1 << b) + R.choice([1, -1]) * (1 << max(b - p, 0)) * R.choice([1, 2, 3]) + R.choice([-1, 0, 0, 1])
        v = v if not t.signed or R.random() < .6 else -v
        if t.lo <= v <= t.hi:
            return lit(v)[0], v
    v = R.choice(edge(t, R, 10))
    return lit(v)[0], v

OPS = ['+', '-', '*', '/', '<', '>', '<=', '>=', '==', '!=']
ALL = [DBL, FLT] + ITYS

def show(e, t, x):
    """print the value of expression e of type t and value x"""
    if isf(t):
        if math.isnan(x):
            return 'printf("%%d%%d\\n", (%s) != (%s), (%s) == (%s));' % (e, e, e, e)
        return '%s(%s);' % (t.show, e)
    return 'printf("%s\\n", %s);' % (FMT[t.k], e)

def binary(R):
    fs, calls = '', ''
    for i in range(R.randint(4, 6)):
        while True:
            ta, tb = R.choice(ALL), R.choice(ALL)
            if isf(ta) or isf(tb):
                break
        (sa, a), (sb, b) = value(R, ta), value(R, tb)
        b_ = []
        for op in R.sample(OPS, R.randint(3, 6)):
            r = fop(op, a, ta, b, tb)
            if r is not None:
                b_.append('    ' + show('a %s b' % op, r[1], r[0]))
        fs += 'void t%d(%s a)\n{\n    %s b = %s;\n%s\n}\n' % (i, ta.c, tb.c, sb, '\n'.join(b_))
        calls += '    t%d(%s);\n' % (i, sa)
    return fs, calls

def conversions(R):
    fs, calls = '', ''
    for i in range(R.randint(4, 6)):
        while True:
            ta, tb = R.choice(ALL), R.choice(ALL)
            if isf(ta) or isf(tb):
                (s, a) = value(R, ta)
                b = to(a, ta, tb)
                if b is not None and not (isf(tb) and math.isnan(b)):
                    break
        k = R.randint(0, 9)
        body, pre = '', ''
        if k == 0:
            body = '%s a = %s; %s b = a; %s' % (ta.c, s, tb.c, show('b', tb, b))
        elif k == 1:
            body = '%s a = %s; %s b; b = a; %s' % (ta.c, s, tb.c, show('b', tb, b))
        elif k == 2:
            body = '%s a = %s; %s' % (ta.c, s, show('(%s)a' % tb.c, tb, b))
        elif k == 3:
            pre = '%s f%d(%s a)\n{\n    return a;\n}\n' % (tb.c, i, ta.c)
            body = show('f%d(%s)' % (i, s), tb, b)
        elif k == 4:
            pre = '%s g%d = %s;\n' % (tb.c, i, s) if isf(ta) == isf(tb) or True else ''
            # the constant has a type of its own
            body = '%s a = %s; g%d = a; %s' % (ta.c, s, i, show('g%d' % i, tb, b))
        elif k == 5:
            body = '%s a[2] = {%s, %s}; %s b[3] = {1, a[1]}; %s' % (ta.c, '1', s, tb.c, show('b[1]', tb, b))
        elif k == 6:
            pre = 'struct S%d { char c; %s a; %s b; };\n' % (i, ta.c, tb.c)
            body = 'struct S%d s; s.a = %s; s.b = s.a; %s %s' % (i, s, show('s.b', tb, b), show('s.a', ta, a) if not isf(ta) or not math.isnan(a) else '')
        elif k == 7:
            body = '%s a = %s; %s b, *p = &b; *p = a; %s' % (ta.c, s, tb.c, show('*p', tb, b))
        elif k == 8:
            body = '%s a = %s; %s b; %s' % (ta.c, s, tb.c, show('(b = a)', tb, b))
        else:
            t3 = R.choice([t for t in ALL if to(b, tb, t) is not None])
            c = to(b, tb, t3)
            body = '%s a = %s; %s b; %s c; c = b = a; %s' % (ta.c, s, tb.c, t3.c, show('c', t3, c))
        fs += pre + 'void t%d(void)\n{\n    %s\n}\n' % (i, body)
        calls += '    t%d();\n' % i
    return fs, calls

def constants(R):
    fs, calls = '', ''
    for i in range(R.randint(2, 4)):
        cs = [rand_const(R) for _ in range(R.randint(2, 4))]
        m = R.choice(['', '', '-'])
        b = ''.join('    D(%s%s);\n' % (m, c) for c in cs)
        b += '    float f = %s%s;\n    F(f);\n' % (m, cs[0])
        if R.random() < .5:
            b += '    static double d = %s%s;\n    D(d);\n' % (m, cs[1])
            b += '    static float a[2] = {%s%s};\n    F(a[0]);\n' % (m, cs[1])
        fs += 'void t%d(void)\n{\n%s}\n' % (i, b)
        calls += '    t%d();\n' % i
    return fs, calls

def unary(R):
    fs, calls = '', ''
    for i in range(R.randint(4, 6)):
        t = R.choice([DBL, FLT])
        s, a = value(R, t)
        if R.random() < .2:
            s, a = '(0.0 / 0.0)', math.nan
        tr = 'a' if R.random() < .8 else '-a'
        bs = ['printf("%%d ", !%s);' % tr, 'printf("%%d ", %s ? 3 : 4);' % tr, 'if (%s) printf("t "); else printf("f ");' % tr, 'printf("%%d ", %s && 1);' % tr,
              'printf("%%d ", %s || 0);' % tr, 'while (%s) { printf("w "); break; }' % tr, 'do printf("d "); while (%s && n-- > 0);' % tr,
              'for (; %s;) { printf("r "); break; }' % tr, 'printf("%%d ", !!%s);' % tr, 'printf("%d ", a == a);', 'printf("%d ", a != a);', 'printf("%%d ", 0 < %s);' % tr]
        if not math.isnan(a):
            bs += [show('-a', t, -a), show('+a', t, a), show('- -a', t, a), show('a++', t, a) + ' ' + show('a', t, a), show('--a', t, a), show('++a', t, a), show('a--', t, a) + show('a', t, a),
                   'printf("%d ", (int)sizeof(-a)); printf("%d ", (int)sizeof(a + 1)); printf("%d ", (int)sizeof(a * 1.0)); printf("%d ", (int)sizeof(!a));']
        fs += 'void t%d(%s a)\n{\n    int n = 1;\n    %s\n    printf("%%d\\n", n);\n}\n' % (i, t.c, '\n    '.join(R.sample(bs, R.randint(3, 5))))
        calls += '    t%d(%s);\n' % (i, s)
    return fs, calls

def compound(R):
    fs, calls = '', ''
    i = 0
    while i < 5:
        ta, tb = R.choice(ALL), R.choice(ALL)
        if not isf(ta) and not isf(tb):
            continue
        (sa, a), (sb, b) = value(R, ta), value(R, tb)
        op = R.choice('+-*/')
        r = fop(op, a, ta, b, tb)
        if r is None or isf(r[1]) and math.isnan(r[0]):
            continue
        x = to(r[0], r[1], ta)
        if x is None:
            continue
        k = R.randint(0, 3)
        lv, decl = [('a', '%s a = %s;' % (ta.c, sa)), ('v[1]', '%s v[2] = {1, %s};' % (ta.c, sa)), ('*p', '%s q = %s, *p = &q;' % (ta.c, sa)), ('s.m', 'struct { char c; %s m; } s; s.m = %s;' % (ta.c, sa))][k]
        if R.random() < .5:
            body = '%s %s b = %s; %s %s= b; %s' % (decl, tb.c, sb, lv, op, show(lv, ta, x))
        else:
            body = '%s %s b = %s; %s' % (decl, tb.c, sb, show('(%s %s= b)' % (lv, op), ta, x))
        # ?: converts to the common type
        t = common(ta, tb)
        y = to(a, ta, t)
        if R.random() < .4 and not (isf(t) and math.isnan(y)):
            body = '%s %s b = %s; int n = 1; %s' % (decl, tb.c, sb, show('(n ? %s : b)' % lv, t, y))
        fs += 'void t%d(void)\n{\n    %s\n}\n' % (i, body)
        calls += '    t%d();\n' % i
        i += 1
    return fs, calls

def expressions(R):
    """expressions over variables of all types"""
    fs, calls = '', ''
    for i in range(3):
        vs = []
        for n in 'abcd':
            t = R.choice([DBL, FLT, DBL, FLT] + ITYS)
            s, v = value(R, t)
            if R.random() < .7:
                v = R.choice([1, 2, 3, -1, 7, .5, -2.25, 10, .1, 100]) if isf(t) else R.choice([x for x in (1, 2, 3, 7, -1, 100) if x >= t.lo])
                v = r32(v) if t is FLT else v
                s = repr(v)
            vs.append((n, t, s, v))
        def ex(d):
            for _ in range(30):
                if d == 0 or R.random() < .15:
                    n, t, s, v = R.choice(vs)
                    return n, t, v
                r = R.random()
                e, t, v = ex(d - 1)
                if r < .1:
                    if isf(t):
                        return '(-%s)' % e, t, -v
                    continue
                if r < .25:
                    t2 = R.choice(ALL)
                    w = to(v, t, t2)
                    if w is not None:
                        return '(%s)%s' % (t2.c, e), t2, w
                    continue
                if r < .35:
                    e2, t2, v2 = ex(d - 1)
                    e3, t3, v3 = ex(d - 1)
                    ct = common(t2, t3)
                    return '(%s ? %s : %s)' % (e, e2, e3), ct, to(v2, t2, ct) if v else to(v3, t3, ct)
                op = R.choice('+-*/+-*/' + '<>')
                e2, t2, v2 = ex(d - 1)
                r = fop(op, v, t, v2, t2)
                if r is None or isf(r[1]) and math.isnan(r[0]):
                    continue
                return '(%s %s %s)' % (e, op, e2), r[1], r[0]
            n, t, s, v = R.choice(vs)
            return n, t, v
        es = [ex(3) for _ in range(3)]
        fs += 'void t%d(%s)\n{\n%s}\n' % (i, ', '.join('%s %s' % (t.c, n) for n, t, s, v in vs), ''.join('    %s\n' % show(e, t, v) for e, t, v in es))
        calls += '    t%d(%s);\n' % (i, ', '.join(s for n, t, s, v in vs))
    return fs, calls

TEMPLATES = r'''
int main(void) { double s = 0; int i; for (i = 0; i < 10; i++) s += 0.1; D(s); printf("%d %f\n", s == 1.0, s); float f = 0; for (i = 0; i < 10; i++) f += 0.1; F(f); printf("%d %f\n", f == 1.0, f); return 0; }
====
double sq(double x) { double g = x; int i; for (i = 0; i < 6; i++) g = (g + x / g) / 2; return g; }
int main(void) { D(sq(2)); D(sq(10.0)); D(sq(1e10)); printf("%f\n", sq(3)); return 0; }
====
float fs(float a, int b, double c, char d, unsigned long e) { return a + b * c - d / e; }
int main(void) { F(fs(1, 2, 3, 4, 5)); F(fs(1.5, 2.9, 1e3, 'a', 18446744073709551615)); F(fs(0.1, -1, 0.1, -1, 3)); return 0; }
====
double m[3][2] = {{1, 2.5}, {-3}, {0.1, 1e100}};
float v[] = {1, 2.5, -3, 0.1, 16777217};
int main(void) { int i, j; for (i = 0; i < 3; i++) for (j = 0; j < 2; j++) D(m[i][j]); for (i = 0; i < 5; i++) F(v[i]); double *p = m[1]; p[-1] = p[1] + v[3]; D(m[0][1]); D(*p); printf("%d %d %d\n", (int)sizeof(m), (int)sizeof(v), (int)(&m[2][1] - m[0] > 3)); return 0; }
====
int main(void) { double z = 0.0, n = z / z, i = 1 / z, m = -z; printf("%d%d%d%d%d%d ", n < n, n > n, n <= n, n >= n, n == n, n != n); printf("%d%d%d%d%d%d ", n < 1, n > 1, n <= 1, n >= 1, n == 1, n != 1); printf("%d%d%d%d%d%d ", i < n, i > 1, i <= i, i >= -i, i == i, i != -i); printf("%d%d%d%d ", z == m, z < m, !m, m ? 1 : 2); D(m); D(1 / m); D(z + m); D(m + m); D(z * -1); D(i - 1); D(-i * 2); printf("%d %d\n", (i - i) == (i - i), n ? 1 : 0); return 0; }
====
int main(void) { float f = 3.4e38; F(f * 10); F(f + f); D((double)f + f); F(-f * f); f = 1e-45; F(f); F(f / 2); F(f * 0.5); float g = 1e39; F(g); g = 16777216; F(g + 1); F(g + 1.0); D(g + 1.0); F(g + 1 - g); F(g + 2); unsigned int u = 4294967295; F(u); D(u); F(u + 1.0); long l = 9007199254740993; D(l); F(l); D(l + 0.0); unsigned long w = 9223372036854775809; F(w); D(w); w = 18446744073709551615; F(w); D(w); l = 36028797018963969; F(l); return 0; }
====
int main(void) { double d = 3000000000.7; unsigned int u = d; unsigned long l = d * 4e9; long s = -d * 3e9; short h = -d / 1e5; unsigned char c = d / 1.2e7; char k = -d / 3e7; printf("%u %lu %ld %d %d %d\n", u, l, s, h, c, k); float f = 3000000000.0; u = f; l = f * f; s = f * -3e9; printf("%u %lu %ld %d\n", u, l, s, (int)(f / 2)); printf("%d %d %d %d\n", (int)0.999999, (int)-0.999999, (int)1e9, (int)-2147483648.9); return 0; }
====
int n;
double f(void) { n++; return 2.5; }
int main(void) { int i = 7; i *= 0.5; printf("%d ", i); i += 0.9; printf("%d ", i); i -= 0.1; printf("%d ", i); i /= 0.3; printf("%d ", i); char c = 100; c *= 1.2; printf("%d ", c); unsigned char u = 250; u += 5.9; printf("%d ", u); long l = 1; l *= 1e18; printf("%ld ", l); float x = 1; x += 0.1; F(x); x *= 3; F(x); x -= 1e-8; F(x); double d = x; d /= 3; D(d); int a[2] = {5, 6}; a[n] += f(); printf("%d %d %d\n", a[0], a[1], n); return 0; }
====
int main(void) { double d = 5.5; D(d++); D(d); D(--d); float f = 0.1; F(f++); F(f); F(--f); F(f--); F(f); double e = 9007199254740992.0; D(e++); D(e); float g = 16777216; F(++g); F(g--); F(g); return 0; }
====
double a(double x, float y) { return x < y ? x : y; }
float b(double x) { return x; }
int c(double x) { return x; }
double d(int x) { return x; }
int main(void) { D(a(1, 2)); D(a(2.5, 0.1)); D(a(0.1, 0.1)); F(b(0.1)); D(b(0.1)); printf("%d %d ", c(-1.9), c(2.9)); D(d(-5)); D(d(2.9)); D(b(c(d(7)))); printf("%d %d\n", b(0.1) == 0.1, b(0.1) == (float)0.1); return 0; }
====
int main(void) { printf("%d %d %d %d %d\n", 0.1 + 0.2 == 0.3, 0.5 + 0.25 == 0.75, (float)0.1 == 0.1, (float)0.1 * 3 == (float)0.3, 1e308 * 10 == 1e308 * 100); printf("%d %d %d %d\n", 1 / 2, 1 / 2.0 > 0, (int)(1 / 2.0 * 4), (int)sizeof(1 ? 1 : 1.0)); D(1 ? 1 : 1.0); D(1e308 * 10); D(5e-324 / 2); D(-5e-324 / 2); D(1.0 - 0.9); D(100 * 1.1); return 0; }
'''.split('====\n')

def prog(f, R):
    fs, calls = f(R)
    return HEAD + BITS + fs + 'int main(void)\n{\n' + calls + '    return 0;\n}\n'

def run(ctx):
    R = ctx.rng
    k = 2 if ctx.quick else 12
    cases = finding_cases(ctx)
    cases += [Case(HEAD + BITS + t, None, None, 'templates') for t in TEMPLATES]
    for f, n in ((binary, 75), (conversions, 75), (constants, 30), (unary, 35), (compound, 45), (expressions, 35)):
        cases += [Case(prog(f, R), None, None, f.__name__) for _ in range(n * k)]
    check_cases(ctx, cases)
